#define ARCHON_IMAGE_HAVE_PNG 1
