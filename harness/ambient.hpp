// Surroundings in which a program may run the library.
#pragma once
#include <clocale>
#include <locale>
#include <string>
#include <cstdlib>

namespace ambient {

// A C++ locale in which numbers are written in groups and letters are others.
struct OddNumbers : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '_'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "0"; }
    std::string do_falsename() const override { return "1"; }
};
struct OddLetters : std::ctype<char> {
    static const mask* odd() {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i) { t[i] = i % 3 == 0 ? (mask)(space | print) : i % 3 == 1 ? (mask)(alpha | upper | print) : (mask)(digit | xdigit | print); }
        return t;
    }
    OddLetters() : std::ctype<char>(odd()) {}
    char do_toupper(char c) const override { return (char)(c ^ 1); }
    char do_tolower(char c) const override { return (char)(c | 0x60); }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) { *b ^= 1; } return e; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) { *b |= 0x60; } return e; }
};
struct OddOrder : std::collate<char> {
    int do_compare(const char* a, const char* ae, const char* b, const char* be) const override { return std::collate<char>::do_compare(b, be, a, ae); }
    std::string do_transform(const char*, const char*) const override { return "same"; }
    long do_hash(const char*, const char*) const override { return 7; }
};
inline std::locale odd_locale() {
    std::locale l(std::locale::classic(), new OddNumbers);
    l = std::locale(l, new OddLetters);
    return std::locale(l, new OddOrder);
}
// "tr": ISO-8859-9, where the lower case of I is not i. "de": ISO-8859-1, decimal comma.
inline bool c_locale(const char* name) {
    bool ok = true;
    for (int cat : {LC_CTYPE, LC_NUMERIC, LC_COLLATE, LC_MONETARY, LC_TIME}) { ok = std::setlocale(cat, name) != nullptr && ok; }
    return ok;
}
// By name: "tr", "de" or "odd".
inline bool enter(const std::string& name) {
    if (name == "odd") { std::locale::global(odd_locale()); return true; }
    return c_locale(name.c_str());
}

}
