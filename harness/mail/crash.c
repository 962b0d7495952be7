// Ends the program at the n-th removal of a database journal: before it (the
// transaction is not committed) or after it.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int count;

int unlink(const char *path) {
	static int (*real)(const char *);
	if (!real) real = (int (*)(const char *))dlsym(RTLD_NEXT, "unlink");
	const char *n = getenv("ZZ_CRASH");
	size_t l = strlen(path);
	if (n && !strcmp(program_invocation_short_name, "mutectrl") && l > 8 && !strcmp(path + l - 8, "-journal")) {
		int at = atoi(n);
		int after = at < 0;
		if (after) at = -at;
		if (__sync_add_and_fetch(&count, 1) == at) {
			if (after) real(path);
			_exit(77);
		}
	}
	return real(path);
}
