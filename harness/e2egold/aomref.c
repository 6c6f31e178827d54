// Reads sequences and decodes them with libaom: u32 number of units (0: end), u32 planes to hash, then for each unit u32 length and
// bytes. Writes u64 hash, 0 if the sequence is not valid.  gcc -O2 aomref.c -o aomref -l:libaom.so.3
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { uint64_t x[64]; } ctx_t;
extern void *aom_codec_av1_dx(void);
extern int aom_codec_dec_init_ver(ctx_t *, void *, void *, long, int);
extern int aom_codec_decode(ctx_t *, const uint8_t *, size_t, void *);
extern void *aom_codec_get_frame(ctx_t *, void **);
extern int aom_codec_destroy(ctx_t *);
static uint32_t u32(void) { uint32_t v; if (fread(&v, 4, 1, stdin) != 1) exit(0); return v; }
static uint64_t h;
static void add(uint64_t v) { h = (h ^ v) * 1099511628211ULL; }
int main(void) {
  static uint8_t buf[1 << 20];
  int ver = 0;
  ctx_t c;
  for (;;) {
    uint32_t n = u32(), planes;
    if (!n) { fflush(stdout); continue; }
    planes = u32();
    memset(&c, 0, sizeof c);
    if (!ver) { for (ver = 1; ver < 60; ver++) { memset(&c, 0, sizeof c); if (aom_codec_dec_init_ver(&c, aom_codec_av1_dx(), 0, 0, ver) == 0) break; } }
    else aom_codec_dec_init_ver(&c, aom_codec_av1_dx(), 0, 0, ver);
    h = 14695981039346656037ULL;
    int bad = 0;
    for (uint32_t i = 0; i < n; i++) {
      uint32_t len = u32();
      if (fread(buf, 1, len, stdin) != len) exit(1);
      if (bad) continue;
      if (aom_codec_decode(&c, buf, len, 0)) { bad = 1; continue; }
      void *it = 0, *f;
      while ((f = aom_codec_get_frame(&c, &it))) {
        uint8_t *r = f;
        uint32_t fmt = *(uint32_t *)r, dw = *(uint32_t *)(r + 40), dh = *(uint32_t *)(r + 44), sx = *(uint32_t *)(r + 56), sy = *(uint32_t *)(r + 60);
        for (uint32_t p = 0; p < planes; p++) {
          uint8_t *d = *(uint8_t **)(r + 64 + 8 * p);
          int st = *(int *)(r + 88 + 4 * p);
          uint32_t pw = p ? (dw + sx) >> sx : dw, ph = p ? (dh + sy) >> sy : dh;
          add(ph);
          for (uint32_t y = 0; y < ph; y++) {
            add(pw);
            for (uint32_t x = 0; x < pw; x++) add(fmt & 0x800 ? ((uint16_t *)(d + y * st))[x] : d[y * st + x]);
          }
        }
      }
    }
    aom_codec_destroy(&c);
    if (bad) h = 0;
    fwrite(&h, 8, 1, stdout);
  }
}
