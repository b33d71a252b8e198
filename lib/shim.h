// SQLite substrate for the checks: the system SQLite library on an in-memory multi-version file system which gives each
// connection a snapshot and detects page conflicts at commit, as the BEGIN CONCURRENT + WAL2 build used in production does.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
struct sqlite3;
namespace shim {
struct Page { std::string data; uint64_t version; };
typedef std::vector<std::shared_ptr<const Page>> Image;       // a committed version of a database file
typedef std::shared_ptr<const Image> ImagePtr;
void reset();                                                  // forget every file
std::string freshName(const char* prefix = "mcdb");            // file name never used before in this process
void seed(const std::string& name, ImagePtr image);            // create a file with this content
ImagePtr image(const std::string& name);                       // current committed content
std::vector<ImagePtr> history(const std::string& name);        // every committed content, oldest first (crash points)
void clearHistory(const std::string& name);
uint64_t hashImage(const ImagePtr& i);
extern void (*logCallback)(void*, int, const char*);           // receives conflict messages (SQLite::_sqliteLogCallback)
extern bool pointsEnabled;                                     // scheduling points at snapshot acquisition and commit
extern std::function<int(sqlite3*, const char* sql)> onStep;   // fault injection: non-zero = result code instead of running
extern int progressOps;                                        // >0: progress handlers fire every so many VM steps of statements marked /*slow*/ (others never run long enough)
extern std::function<void()> onProgress;
extern uint64_t clockUs;                                       // time used outside the controlled scheduler
uint64_t conflicts();                                          // commits refused so far
void setBusyBegin(std::function<bool()> f);                    // BEGIN fails when it returns true
// Plain access to a file's content, outside the code under test. Rows as text with type tags; NULL as "~".
typedef std::vector<std::vector<std::string>> Rows;
struct Db {                                                    // raw connection
    sqlite3* db; std::string name; std::string error;
    explicit Db(const std::string& name); explicit Db(ImagePtr image); ~Db();
    Rows query(const std::string& sql, bool* ok = nullptr);
    bool exec(const std::string& sql);
    std::string dump(bool journals = false);                   // all tables' content, canonical text
};
struct JournalEntry { uint64_t id; std::string query, hash; std::string table; };
std::vector<JournalEntry> journal(Db& db);                     // in id order
}
