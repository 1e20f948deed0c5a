// Part of the simulated program: uses errors while the program is starting,
// before the library's own initialisers (if it has any) have run.
#include <cstring>
#include "best/io/ioerr.h"
char early_name[64];
char early_text[256];
namespace {
struct Early {
  Early() {
    auto n = best::ioerr(13).name();
    if (n.has_value()) memcpy(early_name, n->data(), n->size() < 63 ? n->size() : 63);
    auto t = best::format("{}", best::ioerr(13));
    memcpy(early_text, t.data(), t.size() < 255 ? t.size() : 255);
  }
} early;
}
