// One client connection served by the real BedrockServer::handleSocket: the client's bytes arrive in pieces, each when the server has nothing left to do (or while a command runs).
#pragma once
#include "world.h"
#include <netinet/in.h>
static const int CLIENT = 30000;
static function<void()> gWhenIdle;
static void idleHook() { if (gWhenIdle) gWhenIdle(); }
extern "C" int shutdown(int fd, int) { Conn* c = conn(fd); if (!c) { errno = ENOTCONN; return -1; } if (!c->closed) mc::note("the server closes the connection"); c->closed = true; return 0; }
// The scripted commands as commands of a plugin: the request names its script.
struct Scripts : BedrockPlugin {
    World& w; function<Script(const SData&)> script; static const string pluginName; map<string, function<void(int)>> hooks;
    struct Answering : Command { using Command::Command; bool peek(SQLite& db) override { response["for"] = name; response["echo"] = request.content; return Command::peek(db); } };
    Scripts(World& w_) : BedrockPlugin(w_.s), w(w_) {}
    const string& getName() const override { return pluginName; }
    unique_ptr<BedrockCommand> getCommand(SQLiteCommand&& c) override {
        if (c.request.methodLine != "Do") return nullptr; string n = c.request["name"]; if (w.scripts.count(n)) mc::fail("%s is made twice", n.c_str()); Script s = script(c.request); w.scripts[n] = s; Fate& f = w.fate(n); if (hooks.count(n)) f.hook = hooks[n]; SData r = c.request; return make_unique<Answering>(move(r), s, &f);
    }
};
const string Scripts::pluginName = "Scripts";
struct Client {
    vector<string> pieces; size_t sent = 0; uint64_t lastAt = 0; bool left = false; uint64_t patience = 5000000;
    Conn& c() { return gConns[CLIENT]; }
    bool deliver() { if (sent == pieces.size()) return false; c().rx += pieces[sent]; mc::note("%zu bytes arrive", pieces[sent].size()); sent++; lastAt = rt::nowUs(); return true; }
    void leave() { if (left) return; left = true; mc::note("the client leaves"); c().eof = true; }
    void idle() { if (c().closed || left) return; if (!c().rx.empty()) return; if (deliver()) return; if (rt::nowUs() - lastAt >= patience) leave(); }
};
enum Port { PUBLIC, PRIVATE, CONTROL };
static void serve(World& w, Client& k, void* plugin = nullptr, Port port = PUBLIC, uint32_t address = 0x0A000001, function<void()> meanwhile = nullptr) {
    Conn& c = gConns[CLIENT]; c.client = true; gNextFd = CLIENT + 1; k.lastAt = rt::nowUs(); gWhenIdle = [&k] { k.idle(); }; rt::onIdle = idleHook;
    STCPManager::Socket s(CLIENT, STCPManager::Socket::CONNECTED, false); s.addr.sin_addr.s_addr = htonl(address); s.data = plugin; w.s._outstandingSocketThreads++;
    if (plugin) static_cast<BedrockPlugin*>(plugin)->onPortAccept(&s);
    thread t([&] { rt::nameFiber("connection"); w.s.handleSocket(move(s), port == CONTROL, port == PUBLIC, port == PRIVATE); }); if (meanwhile) { thread m([&] { rt::nameFiber("meanwhile"); meanwhile(); }); m.join(); } t.join(); gWhenIdle = nullptr; rt::onIdle = nullptr;
    MC_CHECK(w.s._outstandingSocketThreads == 0, "the connection's thread is still counted");
    w.s.plugins.clear();
}
