// Independent image codecs of the checks: unmodified copies of stb_image and
// stb_image_write as of the verified revision, with internal linkage.
#define STB_IMAGE_STATIC
#define STB_IMAGE_IMPLEMENTATION
#include "ref/stb_image.h"
#define STB_IMAGE_WRITE_STATIC
#define STB_IMAGE_WRITE_IMPLEMENTATION
#include "ref/stb_image_write.h"
#include <cstdint>
#include <string>
#include <vector>

bool ref_decode(const std::string &file, uint32_t &w, uint32_t &h, std::vector<uint8_t> &rgba) {
  int iw, ih, n;
  stbi_uc *p = stbi_load_from_memory((const stbi_uc *)file.data(), (int)file.size(), &iw, &ih, &n, 4);
  if (!p) {
    return false;
  }
  w = (uint32_t)iw;
  h = (uint32_t)ih;
  rgba.assign(p, p + (size_t)iw * ih * 4);
  free(p);
  return true;
}

static void sink(void *ctx, void *data, int n) { ((std::string *)ctx)->append((char *)data, (size_t)n); }

std::string ref_png(uint32_t w, uint32_t h, int channels, const uint8_t *data) {
  std::string s;
  stbi_write_png_to_func(sink, &s, (int)w, (int)h, channels, data, (int)w * channels);
  return s;
}
std::string ref_jpg(uint32_t w, uint32_t h, int channels, const uint8_t *data, int quality) {
  std::string s;
  stbi_write_jpg_to_func(sink, &s, (int)w, (int)h, channels, data, quality);
  return s;
}
std::string ref_bmp(uint32_t w, uint32_t h, int channels, const uint8_t *data) {
  std::string s;
  stbi_write_bmp_to_func(sink, &s, (int)w, (int)h, channels, data);
  return s;
}
std::string ref_tga(uint32_t w, uint32_t h, int channels, const uint8_t *data) {
  std::string s;
  stbi_write_tga_to_func(sink, &s, (int)w, (int)h, channels, data);
  return s;
}
