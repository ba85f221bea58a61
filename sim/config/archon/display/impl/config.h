#define ARCHON_DISPLAY_HAVE_X11 1
#define ARCHON_DISPLAY_HAVE_X11_XDBE 1
#define ARCHON_DISPLAY_HAVE_X11_XKB 1
#define ARCHON_DISPLAY_HAVE_X11_XRENDER 1
#define ARCHON_DISPLAY_HAVE_X11_XRANDR 1
#define ARCHON_DISPLAY_HAVE_OPENGL_GLX 1
#define ARCHON_DISPLAY_HAVE_SDL 1
