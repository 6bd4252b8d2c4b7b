// Declarations only: enough of nlohmann::json to type-check bin/catima_calculator.cpp. Nothing is defined, so the
// analyser sees every value read from the configuration file as unknown.
#ifndef CATLINT_STUB_JSON
#define CATLINT_STUB_JSON
#include <cstddef>
#include <string>
namespace nlohmann {
class json {
  public:
    json();
    json(const json &);
    json(json &&);
    ~json();
    json &operator=(const json &);
    json &operator=(json &&);
    static json parse(const std::string &);
    std::size_t count(const char *) const;
    bool contains(const char *) const;
    std::size_t size() const;
    bool empty() const;
    bool is_array() const;
    bool is_number() const;
    bool is_number_integer() const;
    bool is_string() const;
    bool is_object() const;
    bool is_null() const;
    bool is_boolean() const;
    json &operator[](const char *);
    const json &operator[](const char *) const;
    json &operator[](int);
    const json &operator[](int) const;
    json &at(const char *);
    const json &at(const char *) const;
    json &at(int);
    const json &at(int) const;
    template <class T> T get() const;
    template <class T> T value(const char *, const T &) const;
    struct iterator {
        json &operator*() const;
        json *operator->() const;
        iterator &operator++();
        bool operator!=(const iterator &) const;
        bool operator==(const iterator &) const;
    };
    iterator begin();
    iterator end();
    iterator begin() const;
    iterator end() const;
    iterator find(const char *);
};
}
#endif
