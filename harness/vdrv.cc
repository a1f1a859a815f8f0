// Conformance driver: executes JSON commands (one per line on stdin) against the real libfdb5 built from
// /repo and prints one JSON result per line.  It contains no oracle: results are raw observations.
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sched.h>

#include <atomic>
#include <chrono>
#include <cstdlib>
#include <new>
#include <cstring>
#include <fstream>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

#include "eckit/config/YAMLConfiguration.h"
#include "eckit/config/Resource.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/log/JSON.h"
#include "eckit/log/Log.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/runtime/Main.h"
#include "eckit/value/Value.h"

#include "metkit/mars/MarsRequest.h"

#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/Key.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesRegistry.h"
#include "fdb5/database/WipeState.h"
#include "vdrv.h"

using eckit::Value;
using namespace vdrv;

namespace vdrv {

// ---------------------------------------------------------------- JSON output
std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
std::string keyJson(const fdb5::Key& k) {
    std::string o = "{";
    bool first = true;
    for (const auto& kv : k) {
        if (!first) o += ",";
        first = false;
        o += esc(kv.first) + ":" + esc(kv.second);
    }
    return o + "}";
}

// ---------------------------------------------------------------- payloads
// A payload is self-describing: "VF" v:u32 len:u32 then bytes depending on (v,len,position).
static inline unsigned char pbyte(uint32_t v, uint32_t len, uint32_t i) {
    uint32_t x = v * 2654435761u ^ (len * 40503u + i * 2246822519u);
    x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13;
    return (unsigned char)x;
}
std::string payload(uint32_t v, uint32_t len) {
    std::string s(len, '\0');
    for (uint32_t i = 0; i < len; ++i) s[i] = (char)pbyte(v, len, i);
    if (len >= 10) { s[0] = 'V'; s[1] = 'F'; memcpy(&s[2], &v, 4); memcpy(&s[6], &len, 4); }
    return s;
}
// Decode a concatenation of payloads; -1 marks bytes that are not an intact payload.
thread_local std::vector<std::string> gribKeys;      // the keys found in the GRIB messages decoded last
long (*gribDecode)(const std::string&, size_t&) = nullptr;          // set where GRIB messages are supported
std::string (*gribMake)(const Value&, long) = nullptr;
std::vector<long> decode(const std::string& b) {
    std::vector<long> out;
    size_t p = 0;
    while (p < b.size()) {
        if (gribDecode && b.compare(p, 4, "GRIB") == 0) {
            out.push_back(gribDecode(b, p));
            if (out.back() < 0) return out;
            continue;
        }
        if (b.size() - p < 10 || b[p] != 'V' || b[p + 1] != 'F') { out.push_back(-1); return out; }
        uint32_t v, len;
        memcpy(&v, &b[p + 2], 4); memcpy(&len, &b[p + 6], 4);
        if (len < 10 || len > b.size() - p) { out.push_back(-1); return out; }
        if (b.compare(p, len, payload(v, len)) != 0) { out.push_back(-1); return out; }
        out.push_back(v);
        p += len;
    }
    return out;
}
std::string gribKeyList() {
    std::string o = "[";
    for (size_t i = 0; i < gribKeys.size(); ++i) { if (i) o += ","; o += gribKeys[i]; }
    return o + "]";
}
std::string slurp(eckit::DataHandle& dh) {
    std::string out;
    dh.openForRead();
    std::vector<char> buf(1 << 20);
    long n;
    while ((n = dh.read(buf.data(), buf.size())) > 0) out.append(buf.data(), n);
    dh.close();
    return out;
}
std::string ints(const std::vector<long>& v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += std::to_string(v[i]); }
    return o + "]";
}
std::string bytesJson(const std::string& s) {
    std::string o = "[";
    for (size_t i = 0; i < s.size(); ++i) { if (i) o += ","; o += std::to_string((unsigned)(unsigned char)s[i]); }
    return o + "]";
}

// ---------------------------------------------------------------- inputs
std::string str(const Value& v, const char* k, const std::string& d) {
    return v.contains(k) ? std::string(v[k]) : d;
}
long num(const Value& v, const char* k, long d) { return v.contains(k) ? long(v[k]) : d; }
bool flag(const Value& v, const char* k, bool d) { return v.contains(k) ? bool(v[k]) : d; }

fdb5::Key mkKey(const Value& v) {
    fdb5::Key k;
    if (v.isList()) {
        eckit::ValueList l = v;
        for (const auto& p : l) k.set(std::string(p[0]), std::string(p[1]));
        return k;
    }
    eckit::ValueMap m = v;
    for (const auto& kv : m) k.set(std::string(kv.first), std::string(kv.second));
    return k;
}
metkit::mars::MarsRequest mkReq(const Value& v, const std::string& verb) {
    metkit::mars::MarsRequest r(verb);
    auto one = [&](const std::string& k, const Value& val) {
        std::vector<std::string> vals;
        if (val.isList()) { eckit::ValueList l = val; for (const auto& x : l) vals.push_back(std::string(x)); }
        else vals.push_back(std::string(val));
        r.values(k, vals);
    };
    if (v.isList()) {
        eckit::ValueList l = v;
        for (const auto& p : l) one(std::string(p[0]), p[1]);
    } else {
        eckit::ValueMap m = v;
        for (const auto& kv : m) one(std::string(kv.first), kv.second);
    }
    return r;
}
fdb5::FDBToolRequest mkTool(const Value& c) {
    return fdb5::FDBToolRequest(c.contains("req") ? mkReq(c["req"], "retrieve") : metkit::mars::MarsRequest("retrieve"),
                                flag(c, "all"), {});
}

// ---------------------------------------------------------------- state
static std::recursive_mutex stateMutex;
static std::map<std::string, std::shared_ptr<Handle>> handles;
static std::map<std::string, std::unique_ptr<eckit::DataHandle>> dhs;
static std::atomic<long> seqno{0};

std::shared_ptr<Handle> H(const Value& c) {
    std::lock_guard<std::recursive_mutex> l(stateMutex);
    auto it = handles.find(str(c, "h"));
    if (it == handles.end()) throw eckit::BadValue("no handle " + str(c, "h"));
    return it->second;
}

fdb5::Config mkConfig(const Value& c) {
    std::string y = c.contains("cfgfile") ? [&] {
        std::ifstream f(str(c, "cfgfile")); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }()
        : str(c, "cfg");
    std::string u = str(c, "user", "{}");
    return fdb5::Config(eckit::YAMLConfiguration(y), eckit::YAMLConfiguration(u)).expandConfig();
}

std::string elemJson(const fdb5::ListElement& e, bool data) {
    std::string o = "{\"k\":[";
    bool first = true;
    for (const auto& k : e.keys()) {
        if (!first) o += ",";
        first = false;
        o += keyJson(k);
    }
    o += "]";
    if (e.hasLocation()) {
        o += ",\"uri\":" + esc(e.location().uri().asRawString()) + ",\"full\":" + esc(e.location().fullUri().asRawString());
        o += ",\"off\":" + std::to_string((long long)e.location().offset()) + ",\"len\":" + std::to_string((long long)e.location().length());
        if (data) {
            std::string r;
            try {
                std::unique_ptr<eckit::DataHandle> dh(e.location().dataHandle());
                std::string b = slurp(*dh);
                if ((long long)b.size() != (long long)e.location().length()) r = "-2";
                else { auto v = decode(b); r = v.size() == 1 ? std::to_string(v[0]) : std::string("-1"); }
            } catch (std::exception& ex) { r = "-3"; }
            o += ",\"v\":" + r;
        }
    }
    return o + "}";
}

std::string axesJson(const fdb5::IndexAxis& a) {
    std::string o = "{";
    bool f1 = true;
    for (const auto& kv : a.map()) {
        if (!f1) o += ",";
        f1 = false;
        o += esc(kv.first) + ":[";
        bool f2 = true;
        for (const auto& v : kv.second) { if (!f2) o += ","; f2 = false; o += esc(v); }
        o += "]";
    }
    return o + "}";
}

fdb5::ControlIdentifiers mkIdents(const Value& v) {
    fdb5::ControlIdentifiers ids;
    eckit::ValueList l = v;
    for (const auto& x : l) {
        std::string s = x;
        if (s == "list") ids |= fdb5::ControlIdentifier::List;
        if (s == "retrieve") ids |= fdb5::ControlIdentifier::Retrieve;
        if (s == "archive") ids |= fdb5::ControlIdentifier::Archive;
        if (s == "wipe") ids |= fdb5::ControlIdentifier::Wipe;
        if (s == "unique") ids |= fdb5::ControlIdentifier::UniqueRoot;
    }
    return ids;
}
std::string controlJson(const fdb5::ControlElement& e) {
    std::string o = "{\"key\":" + keyJson(e.key) + ",\"uri\":" + esc(e.location.asRawString()) + ",\"enabled\":[";
    bool first = true;
    static const std::vector<std::pair<fdb5::ControlIdentifier, const char*>> names = {
        {fdb5::ControlIdentifier::List, "list"}, {fdb5::ControlIdentifier::Retrieve, "retrieve"},
        {fdb5::ControlIdentifier::Archive, "archive"}, {fdb5::ControlIdentifier::Wipe, "wipe"},
        {fdb5::ControlIdentifier::UniqueRoot, "unique"}};
    // ControlElement holds the *enabled-for-control* set: the identifiers whose lock file is absent
    for (const auto& n : names) {
        if (!e.controlIdentifiers.enabled(n.first)) continue;
        if (!first) o += ",";
        first = false;
        o += esc(n.second);
    }
    // field name kept neutral: the set bits of controlIdentifiers
    return o + "]}";
}

// ---------------------------------------------------------------- commands
std::string run(const Value& c);

// threads of a section are delayed at random places (memory is allocated everywhere)
std::atomic<int> jitterRate{0};
void jitter() {
    const int r = jitterRate.load(std::memory_order_relaxed);
    if (!r) return;
    static thread_local unsigned x = 2463534242u ^ (unsigned)(size_t)&x ^ (unsigned)std::chrono::steady_clock::now().time_since_epoch().count();
    x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    if (x % r == 0) {
        if (x & 0x10000) ::usleep((x >> 20) % 300);
        else ::sched_yield();
    }
}

std::string runPar(const Value& c) {
    jitterRate = c.contains("jitter") ? num(c, "jitter") : 0;
    eckit::ValueList threads = c["threads"];
    std::vector<std::string> out(threads.size());
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    const int n = threads.size();
    for (int t = 0; t < n; ++t) {
        eckit::ValueList cmds = threads[t];
        std::vector<std::string> src;
        for (const auto& x : cmds) src.push_back(std::string(x));  // each command is a JSON string
        ts.emplace_back([&, t, src] {
            std::vector<Value> parsed;
            for (const auto& s : src) parsed.push_back(eckit::JSONParser::decodeString(s));
            ready++;
            while (ready.load() < n) {}
            std::string o = "[";
            for (size_t i = 0; i < parsed.size(); ++i) {
                long s = seqno++;
                std::string r = safeRun(parsed[i]);
                long e = seqno++;
                if (i) o += ",";
                o += "{\"s\":" + std::to_string(s) + ",\"e\":" + std::to_string(e) + ",\"r\":" + r + "}";
            }
            out[t] = o + "]";
        });
    }
    for (auto& t : ts) t.join();
    jitterRate = 0;
    std::string o = "{\"ok\":true,\"threads\":[";
    for (int t = 0; t < n; ++t) { if (t) o += ","; o += out[t]; }
    return o + "]}";
}

std::string run(const Value& c) {
    const std::string op = c["op"];

    std::string ext;
    if (runExtra(op, c, ext)) return ext;

    if (op == "open") {
        auto h = std::make_shared<Handle>();
        h->config.reset(new fdb5::Config(mkConfig(c)));
        h->fdb.reset(new fdb5::FDB(*h->config));
        if (flag(c, "cb")) {
            Handle* hp = h.get();
            h->fdb->registerArchiveCallback([hp](const fdb5::Key& k, const void* d, size_t n,
                                                 std::future<std::shared_ptr<const fdb5::FieldLocation>> f) {
                std::lock_guard<std::mutex> l(hp->m);
                auto v = decode(std::string((const char*)d, n));
                hp->cbs.push_back({keyJson(k), v.size() == 1 ? v[0] : -1, (long)n,
                                   std::make_shared<std::future<std::shared_ptr<const fdb5::FieldLocation>>>(std::move(f))});
            });
            h->fdb->registerFlushCallback([hp] { std::lock_guard<std::mutex> l(hp->m); hp->flushes++; });
        }
        std::lock_guard<std::recursive_mutex> l(stateMutex);
        handles[str(c, "h")] = h;
        return "{\"ok\":true}";
    }
    if (op == "close") {
        std::shared_ptr<Handle> h;
        { std::lock_guard<std::recursive_mutex> l(stateMutex); h = handles[str(c, "h")]; handles.erase(str(c, "h")); }
        // a callback may still fire while the object closes
        if (h && h.use_count() == 1) h->fdb.reset();
        long fl = h ? h->flushes : 0;
        h.reset();
        return "{\"ok\":true,\"flushes\":" + std::to_string(fl) + "}";
    }
    if (op == "archive") {
        auto h = H(c);
        std::string data;
        if (c.contains("bytes")) { eckit::ValueList l = c["bytes"]; for (const auto& b : l) data.push_back((char)long(b)); }
        else if (flag(c, "grib")) data = gribMake(c["key"], num(c, "v"));
        else data = payload(num(c, "v"), num(c, "len", 32));
        h->fdb->archive(mkKey(c["key"]), data.data(), data.size());
        return "{\"ok\":true,\"len\":" + std::to_string(data.size()) + "}";
    }
    if (op == "flush") { H(c)->fdb->flush(); return "{\"ok\":true}"; }
    if (op == "dirty") { return std::string("{\"ok\":true,\"dirty\":") + (H(c)->fdb->dirty() ? "true" : "false") + "}"; }
    if (op == "cbs") {   // drain recorded callbacks; get() the location futures
        auto h = H(c);
        std::lock_guard<std::mutex> l(h->m);
        std::string o = "{\"ok\":true,\"flushes\":" + std::to_string(h->flushes) + ",\"cbs\":[";
        for (size_t i = 0; i < h->cbs.size(); ++i) {
            auto& cb = h->cbs[i];
            if (i) o += ",";
            o += "{\"key\":" + cb.key + ",\"v\":" + std::to_string(cb.v) + ",\"len\":" + std::to_string(cb.len);
            if (cb.loc->wait_for(std::chrono::seconds(10)) == std::future_status::ready) {
                try {
                    auto loc = cb.loc->get();
                    o += ",\"loc\":true,\"llen\":" + std::to_string((long long)loc->length());
                    if (flag(c, "read")) {
                        std::unique_ptr<eckit::DataHandle> dh(loc->dataHandle());
                        auto v = decode(slurp(*dh));
                        o += ",\"rv\":" + std::to_string(v.size() == 1 ? v[0] : -1);
                    }
                } catch (std::exception& e) { o += ",\"loc\":false"; }
            } else o += ",\"loc\":false";
            o += "}";
        }
        h->cbs.clear();
        h->flushes = 0;
        return o + "]}";
    }
    if (op == "list") {
        auto h = H(c);
        std::string mode = str(c, "mode", "full");
        fdb5::ListMode m = mode == "full" ? fdb5::ListMode::Full : mode == "dedup" ? fdb5::ListMode::Deduplicate : fdb5::ListMode::OnlyDuplicates;
        auto it = h->fdb->list(mkTool(c), m, num(c, "level", 3));
        if (flag(c, "compact")) {
            std::ostringstream ss;
            auto r = it.dumpCompact(ss);
            return "{\"ok\":true,\"fields\":" + std::to_string(r.first) + ",\"bytes\":" + std::to_string((long long)r.second) + ",\"text\":" + esc(ss.str()) + "}";
        }
        fdb5::ListElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += elemJson(e, flag(c, "data", true)); }
        return o + "]}";
    }
    if (op == "inspect") {
        auto h = H(c);
        auto it = h->fdb->inspect(mkReq(c["req"], "retrieve"));
        fdb5::ListElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += elemJson(e, flag(c, "data", true)); }
        return o + "]}";
    }
    if (op == "retrieve") {
        auto h = H(c);
        std::unique_ptr<eckit::DataHandle> dh(h->fdb->retrieve(mkReq(c["req"], "retrieve")));
        long long est = dh->estimate();
        std::string b = slurp(*dh);
        gribKeys.clear();
        if (flag(c, "raw")) return "{\"ok\":true,\"bytes\":" + bytesJson(b) + "}";
        const std::string vs = ints(decode(b));
        return "{\"ok\":true,\"est\":" + std::to_string(est) + ",\"size\":" + std::to_string(b.size()) + ",\"vs\":" + vs + ",\"gk\":" + gribKeyList() + "}";
    }
    if (op == "wipe") {
        auto h = H(c);
        auto it = h->fdb->wipe(mkTool(c), flag(c, "doit"), flag(c, "porcelain"), flag(c, "unsafe"));
        fdb5::WipeElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) {
            if (!first) o += ",";
            first = false;
            o += "{\"t\":" + std::to_string((int)e.type()) + ",\"uris\":[";
            bool f2 = true;
            for (const auto& u : e.uris()) { if (!f2) o += ","; f2 = false; o += esc(u.asRawString()); }
            o += "]}";
        }
        return o + "]}";
    }
    if (op == "purge") {
        auto h = H(c);
        auto it = h->fdb->purge(mkTool(c), flag(c, "doit"), flag(c, "porcelain"));
        fdb5::PurgeElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += esc(e); }
        return o + "]}";
    }
    if (op == "control") {
        auto h = H(c);
        auto it = h->fdb->control(mkTool(c), str(c, "action") == "disable" ? fdb5::ControlAction::Disable : fdb5::ControlAction::Enable, mkIdents(c["ids"]));
        fdb5::ControlElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += controlJson(e); }
        return o + "]}";
    }
    if (op == "status") {
        auto h = H(c);
        auto it = h->fdb->status(mkTool(c));
        fdb5::ControlElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += controlJson(e); }
        return o + "]}";
    }
    if (op == "stats") {
        auto h = H(c);
        auto it = h->fdb->stats(mkTool(c));
        fdb5::StatsElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) {
            if (!first) o += ",";
            first = false;
            std::ostringstream db;
            e.dbStatistics.report(db);
            o += "{\"fields\":" + std::to_string(e.indexStatistics.fieldsCount()) + ",\"dups\":" + std::to_string(e.indexStatistics.duplicatesCount()) +
                 ",\"fsize\":" + std::to_string(e.indexStatistics.fieldsSize()) + ",\"dsize\":" + std::to_string(e.indexStatistics.duplicatesSize()) +
                 ",\"db\":" + esc(db.str()) + "}";
        }
        return o + "]}";
    }
    if (op == "axes") {
        auto h = H(c);
        if (flag(c, "merged")) return "{\"ok\":true,\"axes\":" + axesJson(h->fdb->axes(mkTool(c), num(c, "level", 3))) + "}";
        auto it = h->fdb->axesIterator(mkTool(c), num(c, "level", 3));
        fdb5::AxesElement e;
        std::string o = "{\"ok\":true,\"elems\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += "{\"key\":" + keyJson(e.key()) + ",\"axes\":" + axesJson(e.axes()) + "}"; }
        return o + "]}";
    }
    if (op == "dump") {
        auto h = H(c);
        auto it = h->fdb->dump(mkTool(c), flag(c, "simple"));
        fdb5::DumpElement e;
        std::string o = "{\"ok\":true,\"lines\":[";
        bool first = true;
        while (it.next(e)) { if (!first) o += ","; first = false; o += esc(e); }
        return o + "]}";
    }
    if (op == "reindex") {    // give the field at a location a key
        auto h = H(c);
        auto loc = std::unique_ptr<fdb5::FieldLocation>(fdb5::FieldLocationFactory::instance().build(
            "file", eckit::URI(str(c, "uri")), eckit::Offset(num(c, "off")), eckit::Length(num(c, "len")), fdb5::Key()));
        h->fdb->reindex(mkKey(c["key"]), *loc);
        return "{\"ok\":true}";
    }
    if (op == "mkdata") {     // a file of payloads with other bytes in between: {"path", "fields": [[v, len, gap before], ...]}
        std::ofstream f(str(c, "path"), std::ios::binary);
        std::string o = "{\"ok\":true,\"offs\":[";
        eckit::ValueList l = c["fields"];
        long long off = 0;
        bool first = true;
        for (const auto& x : l) {
            eckit::ValueList t = x;
            const long v = t[0], n = t[1], gap = t[2];
            f << std::string(gap, '#') << payload(v, n);
            off += gap;
            if (!first) o += ",";
            first = false;
            o += std::to_string(off);
            off += n;
        }
        return o + "]}";
    }
    if (op == "res") return "{\"ok\":true,\"v\":" + std::to_string(eckit::Resource<long>(str(c, "name"), -1)) + "}";
    if (op == "par") return runPar(c);
    if (op == "seq") return "{\"ok\":true,\"n\":" + std::to_string(seqno++) + "}";
    if (op == "pid") return "{\"ok\":true,\"pid\":" + std::to_string(getpid()) + "}";
    if (op == "enabled") {
        auto h = H(c);
        return std::string("{\"ok\":true}");
    }
    // ---- data-handle programs
    if (op == "hopen") {
        auto h = H(c);
        std::unique_ptr<eckit::DataHandle> dh;
        if (c.contains("uris")) {
            std::vector<eckit::URI> uris;
            eckit::ValueList l = c["uris"];
            for (const auto& u : l) uris.push_back(eckit::URI(std::string(u)));
            if (uris.size() == 1 && flag(c, "single")) dh.reset(h->fdb->read(uris[0]));
            else dh.reset(h->fdb->read(uris, flag(c, "sorted")));
        } else if (str(c, "via") == "list") {
            auto it = h->fdb->list(mkTool(c), str(c, "mode") == "dedup" ? fdb5::ListMode::Deduplicate : fdb5::ListMode::Full);
            dh.reset(h->fdb->read(it, flag(c, "sorted")));
        } else if (str(c, "via") == "inspect") {
            auto it = h->fdb->inspect(mkReq(c["req"], "retrieve"));
            dh.reset(h->fdb->read(it, flag(c, "sorted")));
        } else dh.reset(h->fdb->retrieve(mkReq(c["req"], "retrieve")));
        std::lock_guard<std::recursive_mutex> l(stateMutex);
        dhs[str(c, "d")] = std::move(dh);
        return "{\"ok\":true}";
    }
    if (op.size() > 1 && op[0] == 'h' && dhs.count(str(c, "d"))) {
        auto& dh = *dhs[str(c, "d")];
        if (op == "hdel") { dhs.erase(str(c, "d")); return "{\"ok\":true}"; }
        if (op == "hstart") { long long n = dh.openForRead(); return "{\"ok\":true,\"n\":" + std::to_string(n) + "}"; }
        if (op == "hclose") { dh.close(); return "{\"ok\":true}"; }
        if (op == "hread") {
            std::string b(num(c, "n"), '\0');
            long n = dh.read(&b[0], b.size());
            b.resize(n > 0 ? n : 0);
            return "{\"ok\":true,\"n\":" + std::to_string(n) + ",\"bytes\":" + bytesJson(b) + "}";
        }
        if (op == "hseek") { long long n = dh.seek(eckit::Offset(num(c, "n"))); return "{\"ok\":true,\"n\":" + std::to_string(n) + "}"; }
        if (op == "hskip") { dh.skip(eckit::Length(num(c, "n"))); return "{\"ok\":true}"; }
        if (op == "hpos") { return "{\"ok\":true,\"n\":" + std::to_string((long long)dh.position()) + "}"; }
        if (op == "hsize") { return "{\"ok\":true,\"n\":" + std::to_string((long long)dh.size()) + "}"; }
        if (op == "hest") { return "{\"ok\":true,\"n\":" + std::to_string((long long)dh.estimate()) + "}"; }
        if (op == "hcanseek") { return std::string("{\"ok\":true,\"b\":") + (dh.canSeek() ? "true" : "false") + "}"; }
        if (op == "hslurp") { std::string b = slurp(dh); return "{\"ok\":true,\"bytes\":" + bytesJson(b) + "}"; }
        if (op == "hsave") {
            eckit::PathName p(str(c, "path"));
            dh.saveInto(p);
            std::ifstream f(str(c, "path"), std::ios::binary); std::stringstream ss; ss << f.rdbuf();
            return "{\"ok\":true,\"bytes\":" + bytesJson(ss.str()) + "}";
        }
    }
    // ---- schema / types
    if (op == "type") {
        std::istringstream ss(str(c, "schema"));
        fdb5::Schema s(ss);
        std::string o = "{\"ok\":true,\"out\":[";
        eckit::ValueList l = c["values"];
        bool first = true;
        for (const auto& x : l) {
            if (!first) o += ",";
            first = false;
            try { o += esc(s.lookupType(str(c, "keyword")).toKey(std::string(x))); }
            catch (std::exception& e) { o += "null"; }
        }
        o += "],\"tidy\":[";
        first = true;
        for (const auto& x : l) {
            if (!first) o += ",";
            first = false;
            try { o += esc(s.lookupType(str(c, "keyword")).tidy(std::string(x))); }
            catch (std::exception& e) { o += "null"; }
        }
        return o + "]}";
    }
    throw eckit::BadValue("unknown op " + op);
}

std::string safeRun(const Value& c) {
    auto bad = [](const char* t, const std::string& w) {
        return std::string("{\"ok\":false,\"ex\":\"") + t + "\",\"what\":" + esc(w.substr(0, 400)) + "}";
    };
    try { return run(c); }
    catch (eckit::UserError& e) { return bad("UserError", e.what()); }
    catch (eckit::AssertionFailed& e) { return bad("Assert", e.what()); }
    catch (eckit::SeriousBug& e) { return bad("SeriousBug", e.what()); }
    catch (eckit::Exception& e) { return bad("Exception", e.what()); }
    catch (std::exception& e) { return bad("std", e.what()); }
    catch (...) { return bad("other", ""); }
}
}  // namespace vdrv

void* operator new(std::size_t n) {
    vdrv::jitter();
    if (void* p = ::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { vdrv::jitter(); ::free(p); }
void operator delete(void* p, std::size_t) noexcept { ::free(p); }

int main(int argc, char** argv) {
    int outfd = dup(1);
    dup2(2, 1);
    eckit::Main::initialise(argc, argv, "VDRV_HOME");
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        if (line == "quit") break;
        std::string r;
        try {
            Value c = eckit::JSONParser::decodeString(line);
            r = safeRun(c);
        } catch (std::exception& e) { r = std::string("{\"ok\":false,\"ex\":\"parse\",\"what\":") + esc(e.what()) + "}"; }
        r += "\n";
        size_t p = 0;
        while (p < r.size()) {
            ssize_t n = write(outfd, r.data() + p, r.size() - p);
            if (n <= 0) _exit(3);
            p += n;
        }
    }
    handles.clear();
    dhs.clear();
    return 0;
}
