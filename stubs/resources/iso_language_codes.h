// fallback used only when the CMake-generated header is absent; the contents do not matter for the analysis
static const std::unordered_map<std::string, std::string> languageNames_iso_639_2_b = {
    {"eng", "English"},
};
static const std::unordered_map<std::string, std::string> languageNames_iso_639_2_t = {
    {"eng", "English"},
};
