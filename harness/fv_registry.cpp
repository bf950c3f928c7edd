// V09 registered fields and their time history
#include "fv_ls.hpp"

#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"

using namespace fv;

namespace
{
struct Snap
{
    Flat in, val, rv, rg, vf;
};
template<class T>
Snap snap(const fvcc::VolumeField<T>& f)
{
    Snap s;
    auto& b = f.boundaryField();
    s.in = flat(f.internalField());
    s.val = flat(b.value()), s.rv = flat(b.refValue()), s.rg = flat(b.refGrad()), s.vf = flat(b.valueFraction());
    return s;
}
template<class T>
void fillAll(const fvcc::VolumeField<T>& f)
{
    randomise(f.internalField());
    auto& b = f.boundaryField();
    randomise(b.value()), randomise(b.refValue()), randomise(b.refGrad()), randomise(b.valueFraction());
}

/// a time, iteration or sub-cycle index: small, rarely negative or beyond 32 bits
int64_t rndIndex(uint32_t n)
{
    static const int64_t odd[] = {-1, -2, 255, 256, 65536, 0x7fffffff, 0x80000000LL, 0x100000000LL, 0x100000001LL, 0x10000000000000LL, -0x100000000LL};
    uint32_t k = sim::chooseAs(sim::W, n + 11, sim::rnd(sim::W, 12) == 0 ? n + sim::rnd(sim::W, 11) : sim::rnd(sim::W, n));
    return k < n ? (int64_t)k : odd[k - n];
}
struct Rec
{
    int db, col;
    bool vec;
    std::string id, name;
    int64_t ti, it, sc;
    Snap s;
    void* addr;
    int older = -1, newer = -1; // previous and next time of the same field
    int head, level;            // the current field of the history and the distance to it
    bool orphan = false;
};

struct Registry
{
    static constexpr int NDB = 2, NCOL = 2;
    uint32_t ndb = NDB, ncol = NCOL; // in use
    TestMesh t;
    Bcs<scalar> bs;
    Bcs<Vector> bv;
    std::unique_ptr<Database> db[NDB];
    fvcc::FieldCollection* fc[NDB][NCOL] = {};
    std::vector<Rec> recs;
    std::vector<std::string> ids; // every key ever handed out

    Registry() : t(pickExec()), bs(t), bv(t)
    {
        for (auto& d : db) d.reset(new Database());
    }
    static const char* colName(int c)
    {
        static const char* n[] = {"fields", "temporary"};
        return n[c];
    }
    template<class T>
    static constexpr bool isVec = NC<T> == 3;
    template<class T>
    const Bcs<T>& bcs()
    {
        if constexpr (isVec<T>) return bv;
        else
            return bs;
    }
    template<class T>
    fvcc::VolumeField<T>& at(const Rec& r)
    {
        return *(fvcc::VolumeField<T>*)r.addr;
    }
    fvcc::FieldCollection& collection(int d, int c)
    {
        fvcc::FieldCollection* got = nullptr;
        auto op = [&] { got = &fvcc::FieldCollection::instance(*db[d], colName(c)); };
        auto o = sim::attempt(op, 12);
        expectOk("FieldCollection::instance", o);
        if (!o.ok())
        {
            sim::nontrivial();
            op();
        }
        if (fc[d][c] && fc[d][c] != got) sim::fail("wrong-identity", "asking again for field collection %s returns another object", colName(c));
        fc[d][c] = got;
        return *got;
    }
    size_t count(int d, int c)
    {
        size_t n = 0;
        for (auto& r : recs) n += r.db == d && r.col == c;
        return n;
    }
    void newId(const std::string& id)
    {
        Quiet q;
        if (id.empty()) sim::fail("wrong-identity", "a registered field got no key");
        for (auto& i : ids)
            if (i == id) sim::fail("wrong-identity", "two registered fields got the key %s", id.c_str());
        ids.push_back(id);
    }
    template<class T>
    int store(int d, int c, fvcc::VolumeField<T>& f, const std::string& name, int64_t ti, int64_t it, int64_t sc, const Snap& s)
    {
        Rec r {d, c, isVec<T>, f.key, name, ti, it, sc, s, &f};
        r.head = (int)recs.size();
        r.level = 0;
        newId(r.id);
        recs.push_back(r);
        return r.head;
    }
    // ---- registration
    template<class T>
    void registerOne()
    {
        using VolF = fvcc::VolumeField<T>;
        int d = (int)sim::choose(sim::W, ndb), c = (int)sim::choose(sim::W, ncol);
        auto& col = collection(d, c);
        static const char* names[] = {"phi", "U", "p", "phi_0"};
        std::string name = names[sim::choose(sim::W, 4)];
        int64_t ti = rndIndex(5), it = rndIndex(3), sc = rndIndex(2);
        uint32_t how = sim::choose(sim::W, 8);
        if (recs.empty() && (how == 2 || how == 7)) how = 0;
        VolF plain(t.e, "unregistered", *t.m, bcs<T>().b);
        fillAll(plain);
        Snap s = snap(plain);
        const VolF* src = &plain;
        bool partial = false;
        if (how == 2) // from a registered field, some of the metadata taken over from it
        {
            auto& r = recs[sim::choose(sim::W, (uint32_t)recs.size())];
            if (r.vec != isVec<T> || r.orphan) how = 0;
            else
            {
                src = &at<T>(r), s = r.s;
                partial = true;
                if (sim::flip(sim::W, 1, 2)) ti = r.ti;
                if (sim::flip(sim::W, 1, 2)) it = r.it;
                if (sim::flip(sim::W, 1, 2)) sc = r.sc;
            }
        }
        VolF* got = nullptr;
        int calls = 0;
        const Rec* dup = nullptr;
        bool stored = false;
        if (how == 7)
        {
            dup = &recs[sim::choose(sim::W, (uint32_t)recs.size())];
            if (dup->vec != isVec<T>) dup = nullptr, how = 1;
            else
                for (auto& r : recs) stored |= r.db == d && r.col == c && r.id == dup->id;
        }
        fvcc::CreateFunction make;
        if (how == 0 || how == 2)
        {
            fvcc::CreateFromExistingField<VolF> cr {.name = name, .field = *src};
            const Rec* r = nullptr;
            if (partial)
                for (auto& x : recs)
                    if (x.addr == (void*)src) r = &x;
            if (!(r && r->ti == ti)) cr.timeIndex = ti;
            if (!(r && r->it == it)) cr.iterationIndex = it;
            if (!(r && r->sc == sc)) cr.subCycleIndex = sc;
            make = cr;
        }
        else
            make = [&, how](Database& base) -> fvcc::FieldDocument
            {
                {
                    Quiet q;
                    calls++;
                }
                if (&base != db[d].get()) sim::fail("wrong-identity", "the creator of a field was given another database");
                if (how == 3) throw sim::Injected {3};
                if (how == 7) return fvcc::FieldCollection::instance(*db[dup->db], colName(dup->col)).fieldDoc(dup->id);
                DomainField<T> dom(t.e, plain.internalField(), plain.boundaryField());
                VolF f(t.e, name, *t.m, dom, bcs<T>().b, base, "stale key", "stale collection");
                if (how == 4)
                {
                    fvcc::FieldDocument fd(f, ti, it, sc);
                    fd.doc().remove("iterationIndex");
                    return fd;
                }
                if (how == 5) return Document({{"name", f.name}, {"timeIndex", ti}, {"iterationIndex", it}, {"field", f}}, fvcc::validateFieldDoc);
                return fvcc::FieldDocument(f, ti, it, sc);
            };
        auto op = [&]
        {
            {
                Quiet q;
                calls = 0;
            }
            if (how == 6) col.registerField<fvcc::VolumeField<std::conditional_t<isVec<T>, scalar, Vector>>>(make);
            else
                got = &col.registerField<VolF>(make);
        };
        size_t before = count(d, c);
        auto o = sim::attempt(op, 120);
        auto unchanged = [&](const char* what)
        {
            if (col.size() != before) sim::fail("half-registered", "%s left %zu fields in a collection of %zu", what, col.size(), before);
        };
        bool fault = o.res == Res::BadAlloc && o.faultFired;
        if (fault)
        {
            sim::nontrivial();
            sim::probe("registration failed");
            unchanged("a registration that ran out of memory");
            o = sim::attempt(op, 0);
        }
        if (how == 3)
        {
            if (o.res != Res::Injected) sim::fail("wrong-outcome", "registration with a creator that throws: %s", sim::resName(o.res));
            unchanged("a registration whose creator threw");
        }
        else if (how == 4 || how == 5)
        {
            if (o.res != Res::StdOther && o.res != Res::NeoFoam) sim::fail("wrong-outcome", "registration of an incomplete document: %s", sim::resName(o.res));
            unchanged("a refused registration");
        }
        else if (how == 6)
        {
            if (o.res != Res::BadAnyCast) sim::fail("wrong-outcome", "registration as a field of another type: %s", sim::resName(o.res));
            unchanged("a registration as a field of another type");
        }
        else if (how == 7 && stored)
        {
            if (o.res != Res::OutOfRange) sim::fail("wrong-outcome", "registration of a document that is already in the collection: %s", sim::resName(o.res));
            unchanged("a registration of a document that is already stored");
            sim::probe("duplicate");
        }
        else if (how == 7)
        {
            // the same document in another collection is another field
            expectOk("registerField", o);
            if (got->key != dup->id) sim::fail("wrong-identity", "a stored document changed its key from %s to %s", dup->id.c_str(), got->key.c_str());
            Rec r {d, c, isVec<T>, got->key, dup->name, dup->ti, dup->it, dup->sc, dup->s, got};
            r.orphan = true; // shares the key, has no history of its own
            r.head = (int)recs.size();
            r.level = 0;
            recs.push_back(r);
        }
        else
        {
            expectOk("registerField", o);
            if (how != 0 && how != 2 && calls != 1) sim::fail("wrong-outcome", "the creator of a field was called %d times", calls);
            store<T>(d, c, *got, name, ti, it, sc, s);
            // what was registered is a copy
            randomise(plain.internalField());
        }
    }
    // ---- time history
    /// a failed request may have registered the previous field without linking it
    template<class T>
    void adoptOrphans(int d, int c)
    {
        Quiet q;
        auto& col = *fc[d][c];
        if (col.size() == count(d, c)) return;
        for (auto& k : col.sortedKeys())
        {
            bool known = false;
            for (auto& r : recs) known |= r.db == d && r.col == c && r.id == k;
            if (known) continue;
            auto& fd = col.fieldDoc(k);
            auto& f = fd.field<fvcc::VolumeField<T>>();
            Rec r {d, c, isVec<T>, k, fd.name(), fd.timeIndex(), fd.iterationIndex(), fd.subCycleIndex(), snap(f), &f};
            r.head = (int)recs.size(), r.level = 0, r.orphan = true;
            recs.push_back(r);
            ids.push_back(k);
            sim::probe("unlinked previous field after a failure");
        }
    }
    template<class T>
    void previous(int i)
    {
        using VolF = fvcc::VolumeField<T>;
        VolF& f = at<T>(recs[i]);
        VolF* got = nullptr;
        auto op = [&] { got = &fvcc::oldTime(f); };
        auto o = sim::attempt(op, 150);
        expectOk("oldTime", o);
        if (!o.ok())
        {
            sim::nontrivial();
            adoptOrphans<T>(recs[i].db, recs[i].col);
            checkAll("after a failed request for the previous time");
            op();
        }
        if (recs[i].older >= 0)
        {
            if ((void*)got != recs[recs[i].older].addr) sim::fail("wrong-identity", "asking again for the previous time of %s returns another field", recs[i].name.c_str());
            sim::probe("old time again");
        }
        else
        {
            for (auto& r : recs)
                if ((void*)got == r.addr) sim::fail("wrong-identity", "the previous time of %s is the existing field %s", recs[i].name.c_str(), r.name.c_str());
            int j = store<T>(recs[i].db, recs[i].col, *got, recs[i].name + "_0", recs[i].ti - 1, recs[i].it, recs[i].sc, recs[i].s);
            recs[i].older = j;
            recs[j].newer = i;
            recs[j].head = recs[i].head;
            recs[j].level = recs[i].level + 1;
            sim::probe(recs[j].level > 1 ? "older than previous" : "old time created");
        }
    }
    template<class T>
    void constPrevious(int i)
    {
        using VolF = fvcc::VolumeField<T>;
        const VolF& f = at<T>(recs[i]);
        const VolF* got = nullptr;
        bool any = false;
        for (auto& r : recs) any |= r.db == recs[i].db && r.col == recs[i].col && r.older >= 0;
        any |= db[recs[i].db]->contains(std::string(colName(recs[i].col)) + "_oldTime");
        auto o = sim::attempt([&] { got = &fvcc::oldTime(f); }, recs[i].older >= 0 ? 20 : 0);
        if (recs[i].older >= 0)
        {
            expectOk("oldTime (const)", o);
            if (o.ok() && (void*)got != recs[recs[i].older].addr) sim::fail("wrong-identity", "the previous time of a constant %s is another field", recs[i].name.c_str());
            return;
        }
        if (!any && o.res != Res::OutOfRange) sim::fail("wrong-outcome", "previous time of a constant field in a collection without history: %s", sim::resName(o.res));
        if (any && o.res != Res::Aborted && o.res != Res::Exited) sim::fail("wrong-outcome", "missing previous time of a constant field: %s", sim::resName(o.res));
        checkAll("after refusing a previous time");
        ended = any;
        sim::probe("missing previous time refused");
    }
    bool ended = false;
    template<class T>
    void modify(int i)
    {
        auto& r = recs[i];
        auto& f = at<T>(r);
        switch (sim::choose(sim::W, 4))
        {
        case 0:
            fillAll(f);
            r.s = snap(f);
            break;
        case 1:
        {
            auto op = [&] { f.correctBoundaryConditions(); };
            auto o = sim::attempt(op, 10);
            expectOk("correctBoundaryConditions", o);
            if (!o.ok()) op();
            bcs<T>().correct(t.h, r.s);
            break;
        }
        case 2:
        {
            auto& fd = fc[r.db][r.col]->fieldDoc(r.id);
            fd.timeIndex() = r.ti = rndIndex(5);
            fd.iterationIndex() = r.it = rndIndex(5);
            fd.subCycleIndex() = r.sc = rndIndex(5);
            break;
        }
        case 3: // a new time step: the current values become the previous ones
            if (r.older < 0) break;
            {
                auto& o = recs[r.older];
                auto op = [&] { fvcc::oldTime(f).internalField() = f.internalField(); };
                auto out = sim::attempt(op, 20);
                expectOk("assigning to the previous time", out);
                if (!out.ok()) op();
                o.s.in = r.s.in;
            }
            break;
        }
    }
    template<class T>
    void lookup(int i)
    {
        using VolF = fvcc::VolumeField<T>;
        using Other = fvcc::VolumeField<std::conditional_t<isVec<T>, scalar, Vector>>;
        auto& r = recs[i];
        auto& col = *fc[r.db][r.col];
        switch (sim::choose(sim::W, 5))
        {
        case 0:
        {
            VolF* got = nullptr;
            auto o = sim::attempt([&] { got = &col.fieldDoc(r.id).field<VolF>(); });
            expectOk("fieldDoc", o);
            if (o.ok() && (void*)got != r.addr) sim::fail("wrong-identity", "key %s leads to another field", r.id.c_str());
            break;
        }
        case 1:
        {
            auto o = sim::attempt([&] { col.fieldDoc("no such key"); }, 0);
            if (o.res != Res::OutOfRange) sim::fail("wrong-outcome", "lookup of an unknown key: %s", sim::resName(o.res));
            break;
        }
        case 2:
        {
            auto o = sim::attempt([&] { col.fieldDoc(r.id).field<Other>(); }, 0);
            if (o.res != Res::BadAnyCast) sim::fail("wrong-outcome", "lookup of a field as another type: %s", sim::resName(o.res));
            break;
        }
        case 3:
        {
            fvcc::FieldCollection* a = nullptr;
            const fvcc::FieldCollection* b = nullptr;
            VolF& f = at<T>(r);
            auto op = [&]
            {
                a = &fvcc::FieldCollection::instance(f);
                b = &fvcc::FieldCollection::instance(std::as_const(f));
            };
            auto o = sim::attempt(op);
            expectOk("FieldCollection of a field", o);
            if (!o.ok()) op();
            if (a != &col || b != &col) sim::fail("wrong-identity", "field %s reports another collection", r.name.c_str());
            break;
        }
        case 4:
        {
            VolF plain(t.e, "loose", *t.m, bcs<T>().b);
            auto o = sim::attempt([&] { fvcc::oldTime(plain); }, 0);
            if (o.res != Res::StdOther) sim::fail("wrong-outcome", "previous time of an unregistered field: %s", sim::resName(o.res));
            o = sim::attempt([&] { fvcc::FieldCollection::instance(std::as_const(plain)); }, 0);
            if (o.res != Res::StdOther) sim::fail("wrong-outcome", "collection of an unregistered field: %s", sim::resName(o.res));
            break;
        }
        }
    }
    // ---- invariant
    template<class T>
    void checkRec(const char* when, const Rec& r)
    {
        auto& col = *fc[r.db][r.col];
        if (!col.contains(r.id)) sim::fail("lost-field", "%s: field %s is no longer registered", when, r.name.c_str());
        const auto& fd = std::as_const(col).fieldDoc(r.id);
        auto& f = fd.field<fvcc::VolumeField<T>>();
        if ((void*)&f != r.addr) sim::fail("wrong-identity", "%s: key %s leads to another field", when, r.id.c_str());
        if (fd.id() != r.id || f.key != r.id) sim::fail("wrong-identity", "%s: field %s is stored under %s, its document is %s, it says %s", when, r.name.c_str(), r.id.c_str(), fd.id().c_str(), f.key.c_str());
        if (f.fieldCollectionName != colName(r.col)) sim::fail("wrong-identity", "%s: field %s says it is in collection '%s'", when, r.name.c_str(), f.fieldCollectionName.c_str());
        if (fd.name() != r.name || f.name != r.name) sim::fail("wrong-content", "%s: field %s is called %s, its document %s", when, r.name.c_str(), f.name.c_str(), fd.name().c_str());
        auto& md = col.fieldDoc(r.id);
        if (&md != &fd || &md.name() != &md.doc().template get<std::string>("name") || md.name() != r.name || fd.doc().id() != r.id || name(fd.doc()) != r.name)
            sim::fail("wrong-identity", "%s: the document of field %s gives another name or identifier", when, r.name.c_str());
        if (fd.timeIndex() != r.ti || fd.iterationIndex() != r.it || fd.subCycleIndex() != r.sc)
            sim::fail("wrong-content", "%s: field %s has time %ld/%ld/%ld instead of %ld/%ld/%ld", when, r.name.c_str(), (long)fd.timeIndex(), (long)fd.iterationIndex(), (long)fd.subCycleIndex(), (long)r.ti, (long)r.it, (long)r.sc);
        if (f.exec().index() != t.e.index() || f.internalField().exec().index() != t.e.index()) sim::fail("wrong-executor", "%s: field %s moved to another executor", when, r.name.c_str());
        if (&f.mesh() != t.m.get()) sim::fail("wrong-identity", "%s: field %s refers to another mesh", when, r.name.c_str());
        if (f.boundaryConditions().size() != t.h.nPatches()) sim::fail("wrong-content", "%s: field %s lost its boundary conditions", when, r.name.c_str());
        if (!r.orphan && (!f.registered() || &f.db() != db[r.db].get())) sim::fail("wrong-identity", "%s: field %s is not registered in its database", when, r.name.c_str());
        Snap s = snap(f);
        const Flat* a[] = {&s.in, &s.val, &s.rv, &s.rg, &s.vf};
        const Flat* b[] = {&r.s.in, &r.s.val, &r.s.rv, &r.s.rg, &r.s.vf};
        static const char* part[] = {"interior", "boundary value", "reference value", "reference gradient", "fraction"};
        for (int k = 0; k < 5; k++)
        {
            std::string d = diffFlat(*a[k], *b[k], k == 4 ? 1 : NC<T>);
            if (!d.empty()) sim::fail("wrong-content", "%s: %s of field %s (%s): %s", when, part[k], r.name.c_str(), r.id.c_str(), d.c_str());
        }
    }
    void checkAll(const char* when)
    {
        Quiet q;
        for (int d = 0; d < NDB; d++)
            for (int c = 0; c < NCOL; c++)
            {
                std::string on = std::string(colName(c)) + "_oldTime";
                size_t links = 0;
                for (auto& r : recs) links += r.db == d && r.col == c && r.older >= 0;
                if (!fc[d][c]) continue;
                if (!db[d]->contains(colName(c))) sim::fail("lost-field", "%s: collection %s disappeared", when, colName(c));
                if (fc[d][c]->size() != count(d, c)) sim::fail("wrong-content", "%s: collection %s holds %zu fields instead of %zu", when, colName(c), fc[d][c]->size(), count(d, c));
                if (!db[d]->contains(on))
                {
                    if (links) sim::fail("lost-history", "%s: the history of collection %s disappeared", when, colName(c));
                    continue;
                }
                const auto& oc = fvcc::OldTimeCollection::instance(std::as_const(*db[d]), on);
                if (oc.size() != links) sim::fail("wrong-history", "%s: %zu links between times instead of %zu", when, oc.size(), links);
                for (auto& r : recs)
                {
                    if (r.db != d || r.col != c || r.older < 0) continue;
                    const Rec& p = recs[r.older];
                    std::string k = oc.findNextTime(r.id);
                    if (k.empty() || k != oc.findPreviousTime(p.id)) sim::fail("wrong-history", "%s: %s and its previous time are not linked in both directions", when, r.name.c_str());
                    const auto& od = oc.oldTimeDoc(k);
                    if (od.nextTime() != r.id || od.previousTime() != p.id) sim::fail("wrong-history", "%s: %s is linked to other fields", when, r.name.c_str());
                    if (od.id() != k || od.doc().id() != k || od.doc().template get<std::string>("nextTime") != r.id || &od.doc().template get<std::string>("previousTime") != &od.previousTime())
                        sim::fail("wrong-identity", "%s: the document that links %s to its previous time differs from what it reports", when, r.name.c_str());
                    if (od.currentTime() != recs[p.head].id) sim::fail("wrong-history", "%s: the history of %s starts at %s instead of %s", when, p.name.c_str(), od.currentTime().c_str(), recs[p.head].id.c_str());
                    if (od.level() != p.level) sim::fail("wrong-history", "%s: %s is at level %d instead of %d", when, p.name.c_str(), (int)od.level(), p.level);
                }
            }
        for (auto& r : recs)
        {
            if (r.vec) checkRec<Vector>(when, r);
            else
                checkRec<scalar>(when, r);
        }
    }
    void run()
    {
        // most runs look at everything after each operation, some rarely; some are long
        const bool rarely = sim::flip(sim::W, 1, 4);
        const uint32_t most = sim::chooseAs(sim::W, 8, sim::rnd(sim::W, 30) == 0 ? 7 : 0) == 7 ? 72 : 12;
        if (most > 12) ndb = 1 + sim::choose(sim::W, NDB), ncol = 1 + sim::choose(sim::W, NCOL);
        while (!ended && sim::nextOp(most == 12 ? 9 : 110))
        {
            uint32_t k = recs.empty() ? 0 : sim::choose(sim::W, 10);
            if (k < 3)
            {
                if (recs.size() > most / (most > 12 ? 9 : 2) + 1) k = 5;
                else if (sim::flip(sim::W, 1, 3))
                    registerOne<Vector>();
                else
                    registerOne<scalar>();
            }
            if (k >= 3)
            {
                int i = (int)sim::choose(sim::W, (uint32_t)recs.size());
                bool v = recs[i].vec;
                if (recs[i].orphan) continue;
                if (k < 6)
                {
                    if (recs.size() > most) continue;
                    if (v) previous<Vector>(i);
                    else
                        previous<scalar>(i);
                }
                else if (k < 8)
                {
                    if (v) modify<Vector>(i);
                    else
                        modify<scalar>(i);
                }
                else if (k == 8)
                {
                    if (v) lookup<Vector>(i);
                    else
                        lookup<scalar>(i);
                }
                else if (sim::flip(sim::W, 1, 2))
                {
                    if (v) constPrevious<Vector>(i);
                    else
                        constPrevious<scalar>(i);
                }
            }
            if (!rarely || sim::flip(sim::W, 1, 5)) checkAll("after the operation");
        }
        checkAll("at the end");
        if (recs.size() > 3) sim::nontrivial();
    }
};
}
FV_PROPERTY(V09, "a run counts as non-trivial when at least four fields were registered or an allocation failed")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    Registry().run();
}
