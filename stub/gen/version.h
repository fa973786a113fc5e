#pragma once
#define PDAAAL_GIT_HASH x
#define PDAAAL_GIT_HASH_STR "x"
#define PDAAAL_VERSION 0
#define PDAAAL_VERSION_STR "0"
