// A user-defined document / collection pair, written the way the library documents it.
#pragma once
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/document.hpp"

namespace hv
{
template<int Tag>
class UserDoc
{
public:

    UserDoc(const std::string& name, int value)
        : doc_(NeoFOAM::Dictionary({{"name", name}, {"value", value}}), accept)
    {}
    explicit UserDoc(const NeoFOAM::Document& d) : doc_(d) {}
    static bool accept(NeoFOAM::Dictionary d) { return d.contains("name") && d.contains("value"); }
    NeoFOAM::Document& doc() { return doc_; }
    const NeoFOAM::Document& doc() const { return doc_; }
    std::string id() const { return doc_.id(); }
    static std::string typeName() { return Tag == 0 ? "UserDocA" : "UserDocB"; }

private:

    NeoFOAM::Document doc_;
};

template<int Tag>
class UserColl : public NeoFOAM::CollectionMixin<UserDoc<Tag>>
{
    using Base = NeoFOAM::CollectionMixin<UserDoc<Tag>>;

public:

    UserColl(NeoFOAM::Database& db, std::string name) : Base(db, name) {}
    bool contains(const std::string& id) const { return this->docs_.contains(id); }
    std::string insert(const UserDoc<Tag>& d)
    {
        std::string id = d.id();
        if (contains(id)) return "";
        this->docs_.emplace(id, d);
        return id;
    }
    bool erase(const std::string& id) { return this->docs_.erase(id) > 0; }
    static UserColl& instance(NeoFOAM::Database& db, const std::string& name)
    {
        NeoFOAM::Collection& c = db.insert(name, UserColl(db, name));
        return c.template as<UserColl>();
    }
};
using CollA = UserColl<0>;
using CollB = UserColl<1>;
using DocA = UserDoc<0>;
using DocB = UserDoc<1>;
}
