/* The simulated disk: files in memory behind fopen()/fclose(), with every byte's delivery
   decided by the simulator. */
#ifndef SIM_DISK_H
#define SIM_DISK_H
#include <stdio.h>
#include <stdint.h>
#include <string>
#include <map>
struct IoPlan {                 /* what happens to the streams opened while it is in force */
     enum { NONE, TRUNCATE, MUTATE, EIO_ALWAYS, EIO_ONCE, FULL, FAIL_ONCE, CLOSE, OPEN, N };
     int kind = NONE; long pos = 0; int arg = 0;   /* arg: the byte for MUTATE */
     int buf = -1;               /* stream buffer: -1 default, 0 none, n bytes */
     int chunk = 0;              /* reads deliver at most: 0 all, 1 one byte, 2.. random up to this many */
     uint64_t seed = 1;
     std::string name;           /* only for this file ("" all) */
     bool damages() const { return kind == TRUNCATE || kind == MUTATE; }
};
extern const char *io_kind_name[];
struct DiskStats { long opens = 0, open_now = 0, fired = 0, short_reads = 0, reads = 0, writes = 0, at_write = -1; };
extern std::map<std::string, std::string> disk; extern IoPlan io_plan; extern DiskStats io_stat;
void disk_reset();
FILE *disk_open(const char *name, const char *mode);      /* as fopen() by the code under test */
int disk_close(FILE *f);
FILE *disk_pipe(std::string *content, bool writing);      /* a stream with io_plan applied, not in the directory */
#endif
