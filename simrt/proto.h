// Wire format shared by the runtime (simrt.c) and the driver (driver/src/proto.rs).
// One file-backed shared mapping per server process: [in: IN_CAP][out header][out data].
#define SIM_MAGIC 0x53494d32
#define IN_CAP   (16u<<20)
#define OUT_CAP  (48u<<20)
// input records: u32 tag, u32 len, payload padded to 8
enum {
  T_END = 0, T_ARGV = 1 /* NUL-separated */, T_FILE = 2 /* u32 namelen, name, content */,
  T_PARAM = 3 /* array of (u64 key, u64 value) */, T_SWITCH = 4 /* array of (u64 event, u64 tid) */,
  T_SOLVER = 5 /* one solver script: see simrt.c */, T_BLOB = 6 /* u32 keylen, key, content */,
  T_IOFAULT = 7 /* array of struct iofault (6 x u64) */, T_STDIN = 8,
};
enum { // parameters
  P_SCHED_SEED = 1, P_IO_SEED, P_CLOCK_SEED, P_HASH_SEED, P_LAYOUT_SEED,
  P_MODE /* 0 no preemption, 1 random gaps, 2 priorities (PCT), 3 replay */,
  P_GAP_ACOLD, P_GAP_AHOT, P_GAP_RCOLD, P_GAP_RHOT, P_GAP_SYS, /* mean gaps, 0 = never */
  P_PCT_DEPTH, P_PCT_RANGE,
  P_STALL_TID, P_STALL_FROM, P_STALL_TO,
  P_SPURIOUS /* futex spurious wake-up, 1 in N, 0 never */,
  P_CLOCK_MODE, P_MAX_EVENTS,
  P_READ_CHUNK /* 0 = whole; else each read returns 1..chunk */, P_READ_EINTR /* 1 in N */,
  P_WRITE_CHUNK, P_WRITE_EINTR,
  P_ALLOC_FAIL_AT /* nth allocation after start of main fails; 0 never */,
  P_ALLOC_FAIL_MIN /* ... only counts allocations of at least that size */,
  P_THREAD_FAIL_AT /* nth pthread_create fails with EAGAIN */,
  P_PIPE_CAP, P_DIR_SHUFFLE, P_LAYOUT_MODE, P_NCPU, P_RECORD, P_CPU_SECONDS, P_HASH_FAIL,
  P_TRACE_TEXT, P_EINTR_WAIT, P_KILL_AT /* the process dies at its nth system call */,
  P_NPARAMS
};
enum { // io fault kinds
  F_READ_ERR = 1,   // a: file index or -1 any, b: after bytes, c: errno
  F_READ_EOF = 2,   // truncated: reads past b return 0
  F_OPEN_ERR = 3,   // a: nth open (1-based) of a virtual path, c: errno
  F_WRITE_ERR = 4,  // a: channel (1 stdout, 2 stderr, 3 any created file, 10+i the ith created file), b: after bytes, c: errno
  F_SPAWN_ERR = 5,  // a: nth spawn, c: errno
  F_PIPE_ERR = 6,   // a: nth pipe, c: errno
  F_CREATE_ERR = 7, // a: nth create, c: errno
  F_READ_FLIP = 8,  // a: file, b: offset, c: xor byte (media corruption)
  F_STAT_ERR = 9,
  F_WAIT_ERR = 10,  // a: nth waitpid, c: errno (EINTR is retried by std)
  F_READDIR_ERR = 11,
  F_PIPEREAD_ERR = 12, F_CLOCK_JUMP = 13,
};
