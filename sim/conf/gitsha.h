#define GIT_SHA "sim"
