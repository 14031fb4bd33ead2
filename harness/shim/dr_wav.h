// Stand-in for dr_wav (not available offline): RIFF files of 16 bit PCM or 32 bit float samples.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
typedef uint32_t drwav_bool32;
typedef uint64_t drwav_uint64;
enum { drwav_container_riff = 0 };
enum { DR_WAVE_FORMAT_PCM = 1 };
struct drwav_data_format {
  int container = 0;
  uint32_t format = 1, channels = 1, sampleRate = 0, bitsPerSample = 16;
};
struct drwav {
  drwav_uint64 totalPCMFrameCount = 0;
  uint32_t channels = 0, sampleRate = 0;
  FILE *out = nullptr;
  uint32_t written = 0;
  std::vector<float> data;
};
inline drwav_bool32 drwav_init_file(drwav *w, const char *name, const void *) {
  FILE *f = fopen(name, "rb");
  if (f == nullptr) {
    return 0;
  }
  std::vector<unsigned char> b;
  unsigned char buf[4096];
  size_t n = 0;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) {
    b.insert(b.end(), buf, buf + n);
  }
  fclose(f);
  if (b.size() < 12 || memcmp(b.data(), "RIFF", 4) != 0 || memcmp(&b[8], "WAVE", 4) != 0) {
    return 0;
  }
  uint16_t fmt = 0, bits = 0;
  bool found = false;
  for (size_t p = 12; p + 8 <= b.size();) {
    uint32_t len = b[p + 4] | b[p + 5] << 8 | b[p + 6] << 16 | uint32_t(b[p + 7]) << 24;
    const unsigned char *d = &b[p] + 8;
    size_t have = b.size() - p - 8 < len ? b.size() - p - 8 : len;
    if (memcmp(&b[p], "fmt ", 4) == 0 && have >= 16) {
      fmt = d[0] | d[1] << 8;
      w->channels = d[2] | d[3] << 8;
      w->sampleRate = d[4] | d[5] << 8 | d[6] << 16 | uint32_t(d[7]) << 24;
      bits = d[14] | d[15] << 8;
    } else if (memcmp(&b[p], "data", 4) == 0) {
      found = true;
      if (fmt == 1 && bits == 16) {
        for (size_t i = 0; i + 1 < have; i += 2) {
          w->data.push_back(int16_t(d[i] | d[i + 1] << 8) / 32768.0f);
        }
      } else if (fmt == 3 && bits == 32) {
        for (size_t i = 0; i + 3 < have; i += 4) {
          float v;
          memcpy(&v, d + i, 4);
          w->data.push_back(v);
        }
      }
    }
    p += 8 + size_t(len) + (len & 1);
  }
  if (!found || w->channels == 0 || w->sampleRate == 0 || !((fmt == 1 && bits == 16) || (fmt == 3 && bits == 32))) {
    return 0;
  }
  w->totalPCMFrameCount = w->data.size() / w->channels;
  return 1;
}
inline drwav_uint64 drwav_read_pcm_frames_f32(drwav *w, drwav_uint64 n, float *o) {
  if (n > w->totalPCMFrameCount) {
    n = w->totalPCMFrameCount;
  }
  if (n > 0) {
    memcpy(o, w->data.data(), size_t(n) * w->channels * sizeof(float));
  }
  return n;
}
inline void drwav_header(drwav *w) {
  auto u4 = [&](uint32_t v) {
    unsigned char c[4] = {(unsigned char)v, (unsigned char)(v >> 8), (unsigned char)(v >> 16), (unsigned char)(v >> 24)};
    fwrite(c, 1, 4, w->out);
  };
  fseek(w->out, 0, SEEK_SET);
  fwrite("RIFF", 1, 4, w->out);
  u4(36 + w->written);
  fwrite("WAVEfmt ", 1, 8, w->out);
  u4(16);
  u4(1 | w->channels << 16);
  u4(w->sampleRate);
  u4(w->sampleRate * w->channels * 2);
  u4(w->channels * 2 | 16 << 16);
  fwrite("data", 1, 4, w->out);
  u4(w->written);
}
inline drwav_bool32 drwav_init_file_write(drwav *w, const char *name, const drwav_data_format *f, const void *) {
  w->channels = f->channels;
  w->sampleRate = f->sampleRate;
  w->written = 0;
  w->out = fopen(name, "wb");
  if (w->out == nullptr) {
    return 0;
  }
  drwav_header(w);
  return 1;
}
inline drwav_uint64 drwav_write_pcm_frames(drwav *w, drwav_uint64 n, const void *d) {
  if (w->out == nullptr) {
    return 0;
  }
  size_t k = fwrite(d, size_t(w->channels) * 2, size_t(n), w->out);
  w->written += uint32_t(k * w->channels * 2);
  return k;
}
inline int drwav_uninit(drwav *w) {
  if (w->out != nullptr) {
    drwav_header(w);
    int e = ferror(w->out);
    e |= fclose(w->out);
    w->out = nullptr;
    return e ? -1 : 0;
  }
  return 0;
}
