// fallback used only when the CMake-generated /repo/_build/resources/config.h is absent
#ifndef TAG_PARSER_CONFIG
#define TAG_PARSER_CONFIG
#define PROJECT_NAME "tagparser"
#define APP_NAME "Tag Parser"
#define APP_VERSION "0.0.0"
#define APP_VERSION_MAJOR 0
#define APP_VERSION_MINOR 0
#define APP_VERSION_PATCH 0
#define APP_AUTHOR "Martchus"
#define APP_CREDITS ""
#define APP_URL "https://github.com/Martchus/tagparser"
#define APP_DOMAIN ""
#define APP_DESCRIPTION "C++ library"
#define APP_INSTALL_PREFIX "/usr/local"
#define APP_DATA_DIR "share/tagparser"
#endif
