// configuration used by the simulation builds (the shipped one is generated by cmake)
#ifndef __PION_PIONCONFIG_HEADER__
#define __PION_PIONCONFIG_HEADER__
#define PION_VERSION "5.0.7"
#define PION_PLUGINS_DIRECTORY "."
#define PION_CMAKE_CONFIG
#define PION_HAVE_UNORDERED_MAP
#define PION_HAVE_ZLIB
#ifndef SIM_NO_SSL
#define PION_HAVE_SSL
#endif
#define PION_API
#define PION_PLUGIN
#endif
