#pragma once
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "eckit/value/Value.h"
#include "fdb5/api/FDB.h"
#include "fdb5/config/Config.h"
namespace vdrv {
struct CB { std::string key; long v; long len; std::shared_ptr<std::future<std::shared_ptr<const fdb5::FieldLocation>>> loc; };
struct Handle {
    std::unique_ptr<fdb5::Config> config;
    std::unique_ptr<fdb5::FDB> fdb;
    std::mutex m;
    std::vector<CB> cbs;
    long flushes = 0;
    ~Handle() { fdb.reset(); }
};
std::string esc(const std::string&);
std::string keyJson(const fdb5::Key&);
std::string payload(uint32_t v, uint32_t len);
std::vector<long> decode(const std::string&);
extern thread_local std::vector<std::string> gribKeys;
extern long (*gribDecode)(const std::string&, size_t&);
extern std::string (*gribMake)(const eckit::Value&, long);
std::string slurp(eckit::DataHandle&);
std::string ints(const std::vector<long>&);
std::string bytesJson(const std::string&);
std::string str(const eckit::Value&, const char*, const std::string& d = "");
long num(const eckit::Value&, const char*, long d = 0);
bool flag(const eckit::Value&, const char*, bool d = false);
fdb5::Key mkKey(const eckit::Value&);
metkit::mars::MarsRequest mkReq(const eckit::Value&, const std::string& verb);
std::shared_ptr<Handle> H(const eckit::Value&);
std::string safeRun(const eckit::Value&);
// vdrv_extra.cc: further commands (C API, chunked views, ...)
bool runExtra(const std::string& op, const eckit::Value& c, std::string& out);
}
