// Instantiates the templates of Variant, so that they can be analysed (never compiled into anything or run).
#include <hsmcpp/variant.hpp>

using namespace hsmcpp;

struct CustomA {
    int a;
    bool operator==(const CustomA&) const;
    bool operator>(const CustomA&) const;
};

struct CustomB {
    std::string b;
    bool operator==(const CustomB&) const;
    bool operator>(const CustomB&) const;
};

void instantiate(const CustomA& a, const CustomB& b, const std::vector<int>& v, const std::list<std::string>& l, const std::map<int, std::string>& m);
void instantiate(const CustomA& a, const CustomB& b, const std::vector<int>& v, const std::list<std::string>& l, const std::map<int, std::string>& m) {
    Variant x(a);
    x = b;
    x = Variant::make(a);
    x = Variant::makeCustom(b);
    x = Variant(v);
    x = Variant(l);
    x = Variant(m);
    x = Variant(1, std::string("2"));
    x = Variant::make(v);
    x = Variant::make(l);
    x = Variant::make(m);
    x = Variant::make(1, 2.0);
    (void)x.getCustomType<CustomA>();
    (void)x.getCustomType<CustomB>();
    (void)x.toVector<int>(nullptr);
    (void)x.toList<std::string>(nullptr);
    (void)x.toMap<int, std::string>(nullptr, nullptr);
    (void)x.toPair<int, std::string>(nullptr, nullptr);
}
