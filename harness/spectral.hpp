// Weighted geometric mean of two colours in the 10-band spectral model.
#pragma once
#include <cmath>
namespace vp { namespace spec {
typedef double D;
// spectral upsampling constants are data of the colour model, not of its evaluation
static const D SR[10] = {0.009281362787953,0.009732627042016,0.011254252737167,0.015105578649573,0.024797924177217,0.083622585502406,0.977865045723212,1.0,0.999961046144372,0.999999992756822};
static const D SG[10] = {0.002854127435775,0.003917589679914,0.012132151699187,0.748259205918013,1.0,0.865695937531795,0.037477469241101,0.022816789725717,0.021747419446456,0.021384940572308};
static const D SB[10] = {0.537052150373386,0.546646402401469,0.575501819073983,0.258778829633924,0.041709923751716,0.012662638828324,0.007485593127390,0.006766900622462,0.006699764779016,0.006676219883241};
static const D TM[3][10] = {{0.026595621243689,0.049779426257903,0.022449850859496,-0.218453689278271,-0.256894883201278,0.445881722194840,0.772365886289756,0.194498761382537,0.014038157587820,0.007687264480513},
 {-0.032601672674412,-0.061021043498478,-0.052490001018404,0.206659098273522,0.572496335158169,0.317837248815438,-0.021216624031211,-0.019387668756117,-0.001521339050858,-0.000835181622534},
 {0.339475473216284,0.635401374177222,0.771520797089589,0.113222640692379,-0.055251113343776,-0.048222578468680,-0.012966666339586,-0.001523814504223,-0.000094718948810,-0.000051604594741}};
static const D EPS = 0.001;
inline void wgm(const D a[3], const D b[3], D fa, D out[3]) {
  D s[10];
  for (int i = 0; i < 10; i++) {
    D x = 0, y = 0; const D *S[3] = {SR, SG, SB};
    for (int k = 0; k < 3; k++) { x += S[k][i] * (a[k] * (1 - EPS) + EPS); y += S[k][i] * (b[k] * (1 - EPS) + EPS); }
    s[i] = pow(x, fa) * pow(y, 1 - fa);
  }
  for (int k = 0; k < 3; k++) {
    D t = 0; for (int i = 0; i < 10; i++) t += TM[k][i] * s[i];
    t = (t - EPS) / (1 - EPS); out[k] = t < 0 ? 0 : t > 1 ? 1 : t;
  }
}
} }
