/* Declarations (no definitions) of the CSPICE functions huira names, so that the parts of
 * huira which need CSPICE can be type-checked and analysed here. Signatures follow the public
 * CSPICE N67 headers (SpiceZpr.h). Analysis only: nothing is linked or run. */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef char SpiceChar;
typedef double SpiceDouble;
typedef const double ConstSpiceDouble;
typedef const char ConstSpiceChar;
typedef int SpiceInt;
typedef int SpiceBoolean;
#define SPICETRUE 1
#define SPICEFALSE 0
void erract_c(ConstSpiceChar *operation, SpiceInt lenout, SpiceChar *action);
void errprt_c(ConstSpiceChar *operation, SpiceInt lenout, SpiceChar *list);
void errdev_c(ConstSpiceChar *operation, SpiceInt lenout, SpiceChar *device);
SpiceBoolean failed_c(void);
void getmsg_c(ConstSpiceChar *option, SpiceInt lenout, SpiceChar *msg);
void reset_c(void);
void furnsh_c(ConstSpiceChar *file);
void unload_c(ConstSpiceChar *file);
void kclear_c(void);
void str2et_c(ConstSpiceChar *str, SpiceDouble *et);
void utc2et_c(ConstSpiceChar *str, SpiceDouble *et);
void et2utc_c(SpiceDouble et, ConstSpiceChar *format, SpiceInt prec, SpiceInt lenout, SpiceChar *s);
void deltet_c(SpiceDouble epoch, ConstSpiceChar *eptype, SpiceDouble *delta);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar *insys, ConstSpiceChar *outsys);
void timout_c(SpiceDouble et, ConstSpiceChar *pictur, SpiceInt lenout, SpiceChar *output);
void spkezr_c(ConstSpiceChar *target, SpiceDouble epoch, ConstSpiceChar *frame,
              ConstSpiceChar *abcorr, ConstSpiceChar *observer, SpiceDouble state[6],
              SpiceDouble *lt);
void spkpos_c(ConstSpiceChar *target, SpiceDouble epoch, ConstSpiceChar *frame,
              ConstSpiceChar *abcorr, ConstSpiceChar *observer, SpiceDouble pos[3],
              SpiceDouble *lt);
void pxform_c(ConstSpiceChar *from, ConstSpiceChar *to, SpiceDouble et, SpiceDouble rotate[3][3]);
void sxform_c(ConstSpiceChar *from, ConstSpiceChar *to, SpiceDouble et, SpiceDouble xform[6][6]);
void xf2rav_c(ConstSpiceDouble xform[6][6], SpiceDouble rot[3][3], SpiceDouble av[3]);
void conics_c(ConstSpiceDouble elts[8], SpiceDouble et, SpiceDouble state[6]);
void oscelt_c(ConstSpiceDouble state[6], SpiceDouble et, SpiceDouble mu, SpiceDouble elts[8]);
void bodvrd_c(ConstSpiceChar *bodynm, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim,
              SpiceDouble *values);
void bodn2c_c(ConstSpiceChar *name, SpiceInt *code, SpiceBoolean *found);
void mxv_c(ConstSpiceDouble m[3][3], ConstSpiceDouble vin[3], SpiceDouble vout[3]);
#ifdef __cplusplus
}
#endif
