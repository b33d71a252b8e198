// For demonstrations that run commands of plugins the way a leading server does.
#pragma once
#include "demo_sql.h"
#include <BedrockCore.h>
#include <BedrockServer.h>
#include <BedrockPlugin.h>
#include <BedrockCommand.h>
static BedrockServer& demoServer(const map<string, string>& args = {}) { SData a("args"); for (auto& [k, v] : args) a[k] = v; return *new BedrockServer(SQLiteNodeState::LEADING, a); }
static SData call(SQLite& db, BedrockServer& server, BedrockPlugin& plugin, const string& method, const map<string, string>& headers = {}) {
    SData req(method); for (auto& [k, v] : headers) req[k] = v; auto cmd = plugin.getCommand(SQLiteCommand(move(req))); EXPECT(cmd != nullptr); BedrockCore core(db, server);
    if (core.peekCommand(cmd, false) != BedrockCore::RESULT::COMPLETE && core.processCommand(cmd, false) == BedrockCore::RESULT::NEEDS_COMMIT) { uint64_t id; string hash; EXPECT(db.prepare(&id, &hash)); EXPECT(db.commit("demo") == SQLITE_OK); }
    return cmd->response;
}
static void upgrade(SQLite& db, BedrockPlugin& plugin) { EXPECT(db.beginTransaction(SQLite::TRANSACTION_TYPE::EXCLUSIVE)); plugin.upgradeDatabase(db); uint64_t id; string hash; if (db.getUncommittedQuery().empty()) { db.rollback(); return; } EXPECT(db.prepare(&id, &hash)); EXPECT(db.commit("demo") == SQLITE_OK); }
