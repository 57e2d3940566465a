// Shared between simos.c and (by mirrored constants) the Rust orchestrator.
#pragma once
#include <stdint.h>
#include <stddef.h>

enum { // operation classes, visible in traces and matched by faults
  OP_ANY = 0, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_REALPATH, OP_OPENDIR, OP_READDIR,
  OP_MKDIR, OP_UNLINK, OP_RENAME, OP_SYNC, OP_TRUNC, OP_SEEK, OP_GETCWD, OP_READLINK, OP_LINK,
  OP_CHMOD, OP_ACCESS, OP_CHDIR, OP_MALLOC, OP_MISC, OP_NCLASS
};
enum { ACT_ERR = 1, ACT_SHORT, ACT_CRASH_BEFORE, ACT_CRASH_AFTER, ACT_CRASH_PARTIAL, ACT_MUTATE };
enum { MUT_REPLACE = 1, MUT_OVERWRITE, MUT_REMOVE, MUT_SYMLINK, MUT_CHMOD, MUT_TRUNC };
// how a run ended, as the simulator saw it
enum { ST_RUNNING = 0, ST_CRASHED = 1, ST_BUDGET = 2, ST_DEADLOCK = 3, ST_ESCAPE = 4, ST_SIMERR = 5 };
// sink kinds for fds 1 and 2
enum { SINK_PIPE = 0, SINK_FILE, SINK_TTY, SINK_FULL, SINK_BROKEN, SINK_CLOSED };
