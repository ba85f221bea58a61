#define ARCHON_SOURCE_FROM_BUILD_PATH               "../../src"
#define ARCHON_ASSUME_VISUAL_STUDIO_CMAKE_GENERATOR 0
#define ARCHON_VERSION_MAJOR                        0
#define ARCHON_VERSION_MINOR                        1
