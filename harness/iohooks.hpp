// See iohooks.cpp.
#pragma once
#include <sys/types.h>
#include <sys/uio.h>

#include <vector>

namespace iohooks {
// Files given the identity (device, inode) another file is told to have, as on another file system.
struct alias_t { dev_t dev; ino_t ino; dev_t as_dev; ino_t as_ino; };
std::vector<alias_t>& aliases();
// Bulk mode: writes to files are only counted.
extern bool bulk;
extern unsigned long long bulk_bytes;
extern int bulk_fd_min;
// Called first for every write: true if handled, with the result.
extern bool (*on_write)(int fd, const struct iovec* v, int c, long* res);
// Streams that may be used by several threads at a time (the standard streams).
extern const void* shared_streams[4];
}
