// Morton codes, portable build
// @config UM2_ENABLE_BMI2=0
// @bounds the same entries for the portable bit-twiddling build
#include "p06.inc"
