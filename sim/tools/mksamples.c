/* Writes the sample files that DevIL itself can encode (run once on the original tree; the output is committed). */
#include <IL/il.h>
#include <IL/ilu.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static unsigned s = 7; static unsigned rnd(void) { s = s * 1664525u + 1013904223u; return s >> 16; }
static void mk(int w, int h, int d, int bpp, int fmt, int type, int style) {
  static unsigned char b[1 << 20]; int bpc = type == IL_FLOAT ? 4 : type == IL_UNSIGNED_SHORT ? 2 : 1;
  int n = w * h * d * bpp, i;
  for (i = 0; i < n; i++) {
    int px = i / bpp, x = px % w, y = px / w; unsigned v;
    if (style == 0) v = (x * 19 + y * 31 + (i % bpp) * 77) & 255; /* gradient */
    else if (style == 1) v = rnd() & 255;                          /* noise */
    else if (style == 3) v = (x * 3 + y) % 13;                     /* small palette indices */
    else v = ((x / 4 + y / 3) & 1) ? 200 : 30;                     /* runs */
    if (bpc == 1) b[i] = v; else if (bpc == 2) ((unsigned short *)b)[i] = v * 257; else ((float *)b)[i] = v / 255.0f;
  }
  ilTexImage(w, h, d, bpp, fmt, type, b);
  if (fmt == IL_COLOUR_INDEX) { unsigned char p[768]; for (i = 0; i < 768; i++) p[i] = (i * 7 + i / 3) & 255; ilRegisterPal(p, 768, IL_PAL_RGB24); }
}
static void sv(int t, const char *dir, const char *name) {
  char path[500]; snprintf(path, 500, "%s/%s", dir, name);
  ilEnable(IL_FILE_OVERWRITE);
  if (!ilSave(t, path)) { int e; printf("cannot save %s:", name); while ((e = ilGetError())) printf(" %x", e); printf("\n"); remove(path); }
  while (ilGetError()) ;
}
int main(int c, char **v) {
  const char *d = v[1]; ilInit(); iluInit(); ILuint im = ilGenImage(); ilBindImage(im);
  ilSetInteger(IL_TGA_RLE, 0);
  mk(13, 7, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); sv(IL_BMP, d, "rgb.bmp"); sv(IL_TGA, d, "rgb.tga"); sv(IL_PCX, d, "rgb.pcx"); sv(IL_PNG, d, "rgb.png"); sv(IL_JPG, d, "rgb.jpg"); sv(IL_PNM, d, "rgb.ppm"); sv(IL_SGI, d, "rgb.sgi"); sv(IL_TIF, d, "rgb.tif"); sv(IL_PSD, d, "rgb.psd"); sv(IL_HDR, d, "rgb.hdr"); sv(IL_RAW, d, "rgb.raw");
  mk(9, 11, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, 1); sv(IL_TGA, d, "rgba.tga"); sv(IL_PNG, d, "rgba.png"); sv(IL_SGI, d, "rgba.sgi"); sv(IL_TIF, d, "rgba.tif"); sv(IL_PSD, d, "rgba.psd"); sv(IL_RAW, d, "rgba.raw"); sv(IL_BMP, d, "rgba.bmp");
  mk(16, 8, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, 0);
  ilSetInteger(IL_DXTC_FORMAT, IL_DXT1); sv(IL_DDS, d, "dxt1.dds"); sv(IL_VTF, d, "dxt1.vtf");
  ilSetInteger(IL_DXTC_FORMAT, IL_DXT3); sv(IL_DDS, d, "dxt3.dds");
  ilSetInteger(IL_DXTC_FORMAT, IL_DXT5); sv(IL_DDS, d, "dxt5.dds"); sv(IL_VTF, d, "dxt5.vtf");
  ilSetInteger(IL_DXTC_FORMAT, IL_3DC); sv(IL_DDS, d, "3dc.dds"); ilSetInteger(IL_DXTC_FORMAT, IL_RXGB); sv(IL_DDS, d, "rxgb.dds"); ilSetInteger(IL_DXTC_FORMAT, IL_ATI1N); sv(IL_DDS, d, "ati1n.dds");
  ilSetInteger(IL_DXTC_FORMAT, IL_DXT1); iluBuildMipmaps(); sv(IL_DDS, d, "mip.dds"); sv(IL_VTF, d, "mip.vtf");
  ilDeleteImage(im); im = ilGenImage(); ilBindImage(im);
  mk(10, 6, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0); sv(IL_BMP, d, "lum.bmp"); sv(IL_TGA, d, "lum.tga"); sv(IL_PNG, d, "lum.png"); sv(IL_JPG, d, "lum.jpg"); sv(IL_PNM, d, "lum.pgm"); sv(IL_SGI, d, "lum.sgi"); sv(IL_TIF, d, "lum.tif"); sv(IL_PSD, d, "lum.psd"); sv(IL_PCX, d, "lum.pcx"); sv(IL_WBMP, d, "lum.wbmp"); sv(IL_RAW, d, "lum.raw");
  mk(10, 6, 1, 2, IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE, 1); sv(IL_PNG, d, "la.png"); sv(IL_TIF, d, "la.tif"); sv(IL_SGI, d, "la.sgi");
  mk(12, 9, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, 3); sv(IL_BMP, d, "pal.bmp"); sv(IL_TGA, d, "pal.tga"); sv(IL_PCX, d, "pal.pcx"); sv(IL_PNG, d, "pal.png"); sv(IL_TIF, d, "pal.tif"); sv(IL_PSD, d, "pal.psd");
  mk(8, 5, 1, 3, IL_RGB, IL_UNSIGNED_SHORT, 0); sv(IL_PNG, d, "rgb16.png"); sv(IL_TIF, d, "rgb16.tif"); sv(IL_SGI, d, "rgb16.sgi"); sv(IL_PSD, d, "rgb16.psd"); sv(IL_PNM, d, "rgb16.ppm");
  mk(12, 6, 1, 3, IL_RGB, IL_FLOAT, 0); sv(IL_HDR, d, "float.hdr");
  mk(20, 9, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 2); ilEnable(IL_TGA_RLE); ilEnable(IL_BMP_RLE); ilEnable(IL_SGI_RLE); ilSetInteger(IL_TGA_RLE, 1); ilSetInteger(IL_SGI_RLE, 1); ilSetInteger(IL_BMP_RLE, 1); sv(IL_TGA, d, "rle.tga"); sv(IL_SGI, d, "rle.sgi"); sv(IL_HDR, d, "rle.hdr"); sv(IL_PCX, d, "rle.pcx");
  ilSetString(IL_TGA_ID_STRING, "identification"); ilSetString(IL_TGA_AUTHNAME_STRING, "an author"); ilSetString(IL_TGA_AUTHCOMMENT_STRING, "a comment"); sv(IL_TGA, d, "id.tga");
  mk(24, 10, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, 2); sv(IL_BMP, d, "rle8.bmp"); sv(IL_TGA, d, "palrle.tga");
  mk(20, 9, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, 2); sv(IL_TGA, d, "rgbarle.tga"); sv(IL_SGI, d, "rgbarle.sgi");
  ilSetInteger(IL_JPG_PROGRESSIVE, 1); mk(17, 17, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); sv(IL_JPG, d, "prog.jpg"); ilSetInteger(IL_PNG_INTERLACE, 1); sv(IL_PNG, d, "inter.png");
  mk(64, 40, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 1); sv(IL_PNG, d, "big.png"); sv(IL_TGA, d, "big.tga"); sv(IL_BMP, d, "big.bmp"); sv(IL_JPG, d, "big.jpg");
  /* palette */
  mk(12, 9, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, 3); { char p[500]; snprintf(p, 500, "%s/jasc.pal", d); ilSavePal(p); }
  return 0;
}
