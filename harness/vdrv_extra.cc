// Further commands of the conformance driver.
#include <cstring>
#include <map>
#include <sstream>
#include <eccodes.h>
#include "eckit/exception/Exceptions.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/message/Message.h"
#include "eckit/message/Reader.h"
#include "fdb5/database/Catalogue.h"
#include "fdb5/message/MessageDecoder.h"
#include "fdb5/toc/TocCatalogueWriter.h"
#include "fdb5/toc/TocHandler.h"
#include "vdrv.h"
using eckit::Value;
namespace vdrv {

// ---------------------------------------------------------------- GRIB messages
// A small GRIB2 message whose metadata are the key and whose constant field is the version.
static std::mutex gribMutex;
static std::string gribBuild(const std::map<std::string, std::string>& k, long v) {
    std::lock_guard<std::mutex> l(gribMutex);
    codes_handle* h = codes_grib_handle_new_from_samples(nullptr, "GRIB2");
    if (!h) throw eckit::SeriousBug("no GRIB2 sample");
    auto ck = [&](int e, const char* w) { if (e) { throw eckit::SeriousBug(std::string("eccodes: ") + w + ": " + codes_get_error_message(e)); } };
    auto get = [&](const char* x, const char* d) { auto i = k.find(x); return i == k.end() ? std::string(d) : i->second; };
    auto setS = [&](const char* x, const std::string& s) { size_t n = s.size(); ck(codes_set_string(h, x, s.c_str(), &n), x); };
    ck(codes_set_long(h, "setLocalDefinition", 1), "local");
    setS("class", get("class", "od"));
    setS("expver", get("expver", "0001"));
    setS("type", get("type", "an"));
    setS("stream", get("stream", "oper"));
    ck(codes_set_long(h, "dataDate", std::stol(get("date", "20200101"))), "dataDate");
    ck(codes_set_long(h, "dataTime", std::stol(get("time", "0000"))), "dataTime");
    ck(codes_set_long(h, "step", std::stol(get("step", "0"))), "step");
    ck(codes_set_long(h, "paramId", std::stol(get("param", "130"))), "paramId");
    ck(codes_set_long(h, "bitsPerValue", 0), "bits");
    std::vector<double> vals(496, double(v));
    ck(codes_set_double_array(h, "values", vals.data(), vals.size()), "values");
    const void* b; size_t n;
    ck(codes_get_message(h, &b, &n), "message");
    std::string out((const char*)b, n);
    codes_handle_delete(h);
    return out;
}
static std::map<std::string, std::string> gribKey(const std::string& m, long& v) {
    std::map<std::string, std::string> k;
    std::lock_guard<std::mutex> l(gribMutex);
    codes_handle* h = codes_handle_new_from_message(nullptr, m.data(), m.size());
    if (!h) { v = -1; return k; }
    for (const char* x : {"class", "expver", "type", "stream", "date", "time", "step", "param", "levtype", "domain"}) {
        char buf[200]; size_t n = sizeof buf;
        if (codes_get_string(h, (std::string("mars.") + x).c_str(), buf, &n) == 0) k[x] = buf;
    }
    size_t n = 496; std::vector<double> vals(n);
    v = codes_get_double_array(h, "values", vals.data(), &n) == 0 && n == 496 ? long(vals[7]) : -1;
    codes_handle_delete(h);
    return k;
}
static long gribDec(const std::string& b, size_t& p) {
    if (b.size() - p < 20) return -1;
    unsigned long n = 0;
    for (int i = 8; i < 16; ++i) n = n * 256 + (unsigned char)b[p + i];
    if (n < 20 || n > b.size() - p) return -1;
    std::string m = b.substr(p, n);
    p += n;
    if (m.compare(n - 4, 4, "7777")) return -1;
    long v;
    auto k = gribKey(m, v);
    if (v < 0) return -1;
    if (gribBuild(k, v) != m) return -1;      // not the bytes of a message we make
    std::string o = "{";
    for (const auto& x : k) { if (o.size() > 1) o += ","; o += esc(x.first) + ":" + esc(x.second); }
    gribKeys.push_back(o + "}");
    return v;
}
static std::map<std::string, std::string> mapOf(const Value& v) {
    std::map<std::string, std::string> m;
    for (const auto& kv : mkKey(v)) m[kv.first] = kv.second;
    return m;
}
static std::string gribMk(const Value& key, long v) { return gribBuild(mapOf(key), v); }
static const bool gribSet = (gribDecode = gribDec, gribMake = gribMk, true);

bool runExtra(const std::string& op, const Value& c, std::string& out) {
    if (op == "hide") {   // what fdb-hide --doit does for one database key
        auto h = H(c);
        fdb5::Key key = mkKey(c["key"]);
        auto db = fdb5::CatalogueReaderFactory::instance().build(key, *h->config);
        if (!db->exists()) throw eckit::UserError("Database not found");
        auto w = fdb5::CatalogueWriterFactory::instance().build(key, *h->config);
        auto* toc = dynamic_cast<fdb5::TocCatalogueWriter*>(w.get());
        toc->hideContents();
        out = "{\"ok\":true}";
        return true;
    }
    if (op == "gkey") {   // the key the library reads from a message
        std::string m = gribBuild(mapOf(c["key"]), num(c, "v"));
        eckit::MemoryHandle mh(m.data(), m.size());
        mh.openForRead();
        eckit::message::Reader r(mh);
        auto msg = r.next();
        out = "{\"ok\":true,\"key\":" + keyJson(fdb5::MessageDecoder::messageToKey(msg)) + ",\"len\":" + std::to_string(m.size()) + "}";
        return true;
    }
    if (op == "garchive") {   // a stream of messages, checked against a request if there is one
        auto h = H(c);
        std::string m;
        eckit::ValueList l = c["msgs"];
        for (const auto& x : l) m += gribBuild(mapOf(x["key"]), num(x, "v"));
        eckit::MemoryHandle mh(m.data(), m.size());
        std::string how = str(c, "how", "handle");
        if (c.contains("req")) h->fdb->archive(mkReq(c["req"], "archive"), mh);
        else if (how == "data") h->fdb->archive(m.data(), m.size());
        else h->fdb->archive(mh);
        out = "{\"ok\":true}";
        return true;
    }
    return false;
}
}
