// Certificates and keys for the simulated TLS endpoints (made for tests, no secrets).
// 1 and 2 are self-signed, 31, 32 and 33 (expired) are signed by CA 3.
#pragma once
#include <cstdint>
namespace sim {
static const uint8_t sslCert1[477] = {
  48,130,1,217,48,130,1,127,160,3,2,1,2,2,20,55,154,141,66,167,247,248,88,203,
  79,26,140,158,66,179,153,162,94,255,68,48,10,6,8,42,134,72,206,61,4,3,2,48,
  65,49,11,48,9,6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,
  6,77,111,115,99,111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,
  49,16,48,14,6,3,85,4,10,12,7,85,98,105,115,111,102,116,48,32,23,13,50,49,
  48,51,49,50,49,56,48,55,52,53,90,24,15,50,49,50,49,48,50,49,54,49,56,48,
  55,52,53,90,48,65,49,11,48,9,6,3,85,4,6,19,2,82,85,49,15,48,13,6,
  3,85,4,8,12,6,77,111,115,99,111,119,49,15,48,13,6,3,85,4,7,12,6,77,
  111,115,99,111,119,49,16,48,14,6,3,85,4,10,12,7,85,98,105,115,111,102,116,48,
  89,48,19,6,7,42,134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,
  0,4,152,138,102,251,90,0,133,248,137,195,173,195,146,206,187,105,80,63,127,178,37,97,
  50,210,11,240,120,118,222,153,176,4,67,86,74,144,133,239,33,149,211,35,224,99,184,9,
  74,91,144,77,117,239,249,192,19,203,190,88,230,27,161,243,96,42,163,83,48,81,48,29,
  6,3,85,29,14,4,22,4,20,194,148,132,43,6,153,6,127,163,149,157,48,21,195,152,
  15,96,177,232,197,48,31,6,3,85,29,35,4,24,48,22,128,20,194,148,132,43,6,153,
  6,127,163,149,157,48,21,195,152,15,96,177,232,197,48,15,6,3,85,29,19,1,1,255,
  4,5,48,3,1,1,255,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,69,
  2,32,18,93,201,34,234,42,94,107,125,4,249,210,248,188,134,18,139,212,19,233,115,138,
  98,101,235,87,21,42,232,35,187,64,2,33,0,222,118,46,133,237,200,70,108,40,176,100,
  20,100,127,108,91,9,98,31,53,177,32,35,201,163,7,27,91,187,153,121,246,
};
static const uint8_t sslKey1[121] = {
  48,119,2,1,1,4,32,110,130,210,56,6,152,103,83,131,76,70,129,178,9,80,224,0,
  198,83,43,161,246,48,178,130,200,174,75,94,110,77,173,160,10,6,8,42,134,72,206,61,
  3,1,7,161,68,3,66,0,4,152,138,102,251,90,0,133,248,137,195,173,195,146,206,187,
  105,80,63,127,178,37,97,50,210,11,240,120,118,222,153,176,4,67,86,74,144,133,239,33,
  149,211,35,224,99,184,9,74,91,144,77,117,239,249,192,19,203,190,88,230,27,161,243,96,
  42,
};
static const uint8_t sslCert2[477] = {
  48,130,1,217,48,130,1,127,160,3,2,1,2,2,20,23,141,33,231,32,218,103,139,103,
  98,169,4,147,117,192,75,108,86,186,28,48,10,6,8,42,134,72,206,61,4,3,2,48,
  65,49,11,48,9,6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,
  6,77,111,115,99,111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,
  49,16,48,14,6,3,85,4,10,12,7,85,98,105,115,111,102,116,48,32,23,13,50,49,
  49,48,48,56,49,54,52,57,53,52,90,24,15,50,49,50,49,48,57,49,52,49,54,52,
  57,53,52,90,48,65,49,11,48,9,6,3,85,4,6,19,2,82,85,49,15,48,13,6,
  3,85,4,8,12,6,77,111,115,99,111,119,49,15,48,13,6,3,85,4,7,12,6,77,
  111,115,99,111,119,49,16,48,14,6,3,85,4,10,12,7,85,98,105,115,111,102,116,48,
  89,48,19,6,7,42,134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,
  0,4,112,30,212,221,134,229,197,69,250,199,146,117,181,160,159,30,96,99,37,85,252,244,
  31,215,4,17,96,242,196,119,40,192,203,14,50,247,186,29,57,131,178,164,65,5,101,183,
  191,212,143,33,42,234,50,146,252,98,222,114,43,247,158,58,181,217,163,83,48,81,48,29,
  6,3,85,29,14,4,22,4,20,112,166,70,86,247,25,141,216,115,181,80,183,5,238,215,
  204,156,249,223,154,48,31,6,3,85,29,35,4,24,48,22,128,20,112,166,70,86,247,25,
  141,216,115,181,80,183,5,238,215,204,156,249,223,154,48,15,6,3,85,29,19,1,1,255,
  4,5,48,3,1,1,255,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,69,
  2,33,0,134,37,188,45,115,174,64,188,55,25,84,242,146,180,128,213,69,179,70,4,167,
  141,235,0,115,66,151,216,197,20,78,114,2,32,107,38,148,179,9,94,74,101,47,62,29,
  39,187,125,103,194,174,80,89,77,190,207,138,86,202,205,2,94,82,239,1,204,
};
static const uint8_t sslKey2[121] = {
  48,119,2,1,1,4,32,137,95,63,118,126,11,4,215,135,122,8,146,224,229,111,3,141,
  151,104,191,210,239,64,178,151,97,15,96,102,48,121,20,160,10,6,8,42,134,72,206,61,
  3,1,7,161,68,3,66,0,4,112,30,212,221,134,229,197,69,250,199,146,117,181,160,159,
  30,96,99,37,85,252,244,31,215,4,17,96,242,196,119,40,192,203,14,50,247,186,29,57,
  131,178,164,65,5,101,183,191,212,143,33,42,234,50,146,252,98,222,114,43,247,158,58,181,
  217,
};
static const uint8_t sslCert31[429] = {
  48,130,1,169,48,130,1,79,2,20,83,83,137,45,34,111,175,228,28,26,0,180,8,108,
  242,36,88,191,46,147,48,10,6,8,42,134,72,206,61,4,3,2,48,83,49,11,48,9,
  6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,6,77,111,115,99,
  111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,49,16,48,14,6,
  3,85,4,10,12,7,85,98,105,115,111,102,116,49,16,48,14,6,3,85,4,3,12,7,
  85,98,105,115,111,102,116,48,32,23,13,50,50,48,54,50,50,49,52,48,51,48,53,90,
  24,15,50,49,50,50,48,53,50,57,49,52,48,51,48,53,90,48,89,49,11,48,9,6,
  3,85,4,6,19,2,65,85,49,19,48,17,6,3,85,4,8,12,10,83,111,109,101,45,
  83,116,97,116,101,49,33,48,31,6,3,85,4,10,12,24,73,110,116,101,114,110,101,116,
  32,87,105,100,103,105,116,115,32,80,116,121,32,76,116,100,49,18,48,16,6,3,85,4,
  3,12,9,85,98,105,115,111,102,116,32,49,48,89,48,19,6,7,42,134,72,206,61,2,
  1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,222,90,14,142,7,221,226,133,229,
  4,115,251,116,119,131,198,174,159,240,161,240,230,226,241,248,142,69,25,229,88,120,144,245,
  22,235,153,51,231,255,223,78,15,183,123,248,37,136,121,165,201,229,130,131,157,163,55,86,
  89,86,191,211,65,42,232,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,69,
  2,32,14,174,41,5,3,128,7,143,44,132,127,28,235,171,92,208,116,98,181,135,87,36,
  204,123,37,160,119,9,185,47,119,19,2,33,0,225,70,136,36,204,121,237,90,24,50,172,
  228,85,40,196,148,201,212,160,203,179,1,250,24,224,105,230,44,35,187,16,244,
};
static const uint8_t sslCert32[430] = {
  48,130,1,170,48,130,1,79,2,20,83,83,137,45,34,111,175,228,28,26,0,180,8,108,
  242,36,88,191,46,148,48,10,6,8,42,134,72,206,61,4,3,2,48,83,49,11,48,9,
  6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,6,77,111,115,99,
  111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,49,16,48,14,6,
  3,85,4,10,12,7,85,98,105,115,111,102,116,49,16,48,14,6,3,85,4,3,12,7,
  85,98,105,115,111,102,116,48,32,23,13,50,50,48,54,50,50,49,52,48,51,48,57,90,
  24,15,50,49,50,50,48,53,50,57,49,52,48,51,48,57,90,48,89,49,11,48,9,6,
  3,85,4,6,19,2,65,85,49,19,48,17,6,3,85,4,8,12,10,83,111,109,101,45,
  83,116,97,116,101,49,33,48,31,6,3,85,4,10,12,24,73,110,116,101,114,110,101,116,
  32,87,105,100,103,105,116,115,32,80,116,121,32,76,116,100,49,18,48,16,6,3,85,4,
  3,12,9,85,98,105,115,111,102,116,32,50,48,89,48,19,6,7,42,134,72,206,61,2,
  1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,222,90,14,142,7,221,226,133,229,
  4,115,251,116,119,131,198,174,159,240,161,240,230,226,241,248,142,69,25,229,88,120,144,245,
  22,235,153,51,231,255,223,78,15,183,123,248,37,136,121,165,201,229,130,131,157,163,55,86,
  89,86,191,211,65,42,232,48,10,6,8,42,134,72,206,61,4,3,2,3,73,0,48,70,
  2,33,0,239,235,75,184,0,139,199,98,167,185,32,164,5,228,163,60,166,253,208,133,249,
  1,84,4,161,115,160,138,61,147,1,133,2,33,0,147,239,8,192,94,208,54,196,75,117,
  119,149,253,165,124,142,36,253,36,47,81,96,32,227,68,53,110,51,108,19,84,155,
};
static const uint8_t sslCert33Expired[428] = {
  48,130,1,168,48,130,1,77,2,20,83,83,137,45,34,111,175,228,28,26,0,180,8,108,
  242,36,88,191,46,149,48,10,6,8,42,134,72,206,61,4,3,2,48,83,49,11,48,9,
  6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,6,77,111,115,99,
  111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,49,16,48,14,6,
  3,85,4,10,12,7,85,98,105,115,111,102,116,49,16,48,14,6,3,85,4,3,12,7,
  85,98,105,115,111,102,116,48,30,23,13,50,49,49,50,51,49,50,51,48,48,48,48,90,
  23,13,50,50,48,49,48,55,50,51,48,48,48,48,90,48,89,49,11,48,9,6,3,85,
  4,6,19,2,65,85,49,19,48,17,6,3,85,4,8,12,10,83,111,109,101,45,83,116,
  97,116,101,49,33,48,31,6,3,85,4,10,12,24,73,110,116,101,114,110,101,116,32,87,
  105,100,103,105,116,115,32,80,116,121,32,76,116,100,49,18,48,16,6,3,85,4,3,12,
  9,85,98,105,115,111,102,116,32,51,48,89,48,19,6,7,42,134,72,206,61,2,1,6,
  8,42,134,72,206,61,3,1,7,3,66,0,4,222,90,14,142,7,221,226,133,229,4,115,
  251,116,119,131,198,174,159,240,161,240,230,226,241,248,142,69,25,229,88,120,144,245,22,235,
  153,51,231,255,223,78,15,183,123,248,37,136,121,165,201,229,130,131,157,163,55,86,89,86,
  191,211,65,42,232,48,10,6,8,42,134,72,206,61,4,3,2,3,73,0,48,70,2,33,
  0,229,168,14,78,64,251,209,168,135,153,21,134,7,244,89,67,88,144,176,37,103,4,121,
  76,93,250,75,175,127,96,229,59,2,33,0,254,166,78,124,232,244,242,245,94,180,203,88,
  78,68,111,87,47,207,198,200,127,23,200,163,254,224,26,157,63,209,180,4,
};
static const uint8_t sslKey3[121] = {
  48,119,2,1,1,4,32,101,1,4,204,107,39,180,133,61,56,120,215,58,90,18,22,221,
  228,143,165,130,103,186,52,240,50,111,212,116,137,131,68,160,10,6,8,42,134,72,206,61,
  3,1,7,161,68,3,66,0,4,222,90,14,142,7,221,226,133,229,4,115,251,116,119,131,
  198,174,159,240,161,240,230,226,241,248,142,69,25,229,88,120,144,245,22,235,153,51,231,255,
  223,78,15,183,123,248,37,136,121,165,201,229,130,131,157,163,55,86,89,86,191,211,65,42,
  232,
};
static const uint8_t sslCACert3[513] = {
  48,130,1,253,48,130,1,163,160,3,2,1,2,2,20,51,13,199,168,255,196,72,101,103,
  151,111,149,152,237,224,166,249,153,33,36,48,10,6,8,42,134,72,206,61,4,3,2,48,
  83,49,11,48,9,6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,
  6,77,111,115,99,111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,
  49,16,48,14,6,3,85,4,10,12,7,85,98,105,115,111,102,116,49,16,48,14,6,3,
  85,4,3,12,7,85,98,105,115,111,102,116,48,32,23,13,50,50,48,54,50,50,49,51,
  51,57,51,51,90,24,15,50,49,50,50,48,53,50,57,49,51,51,57,51,51,90,48,83,
  49,11,48,9,6,3,85,4,6,19,2,82,85,49,15,48,13,6,3,85,4,8,12,6,
  77,111,115,99,111,119,49,15,48,13,6,3,85,4,7,12,6,77,111,115,99,111,119,49,
  16,48,14,6,3,85,4,10,12,7,85,98,105,115,111,102,116,49,16,48,14,6,3,85,
  4,3,12,7,85,98,105,115,111,102,116,48,89,48,19,6,7,42,134,72,206,61,2,1,
  6,8,42,134,72,206,61,3,1,7,3,66,0,4,11,61,73,189,97,217,233,214,189,73,
  187,181,44,183,126,10,5,177,254,137,179,26,13,191,244,68,142,72,106,165,165,38,229,11,
  16,205,44,41,222,216,198,75,137,223,108,171,143,183,135,196,248,186,49,124,187,150,66,140,
  243,185,98,28,212,33,163,83,48,81,48,29,6,3,85,29,14,4,22,4,20,100,227,3,
  78,96,194,214,59,255,143,1,14,195,232,235,199,186,136,86,102,48,31,6,3,85,29,35,
  4,24,48,22,128,20,100,227,3,78,96,194,214,59,255,143,1,14,195,232,235,199,186,136,
  86,102,48,15,6,3,85,29,19,1,1,255,4,5,48,3,1,1,255,48,10,6,8,42,
  134,72,206,61,4,3,2,3,72,0,48,69,2,32,105,208,119,80,80,106,60,73,91,126,
  9,108,64,243,163,223,39,8,188,166,44,20,168,202,187,20,120,183,230,45,115,51,2,33,
  0,151,64,103,124,211,118,48,63,162,5,183,126,114,237,168,155,139,0,50,97,47,175,123,
  108,91,167,23,144,105,169,42,92,
};
}
