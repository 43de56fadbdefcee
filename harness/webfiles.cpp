// C15: the web servers' file handlers.
// SX: srcdef FileSystem_POSIX -Dopen=sxk_open -Dstat=sxk_stat
// SX: srcdef Pipe_FD.cpp -Dread=sxk_read -Dclose=sxk_close -Dfstat=sxk_fstat
#include "webfiles.h"
