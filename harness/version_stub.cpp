// Stands in for the version.cpp that /repo's cmake generates.
extern "C" {
const char* GIT_TAG = "verif";
const char* GIT_REV = "verif";
const char* GIT_BRANCH = "verif";
}
