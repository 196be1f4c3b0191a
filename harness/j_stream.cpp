// The JSON output stream: whatever the sequence of calls, the text is a JSON document with exactly the members that were written.
#include "sym.h"
#include <sstream>
#include "utils/json_stream.h"
#ifndef OPS
#define OPS 5
#endif
// expected document: a tree; read back by a small strict reader
struct Node { std::string key; int kind; std::string text; std::vector<Node> kids; }; // kind 0 value (text), 1 object
struct Rd {
    const std::string& t; size_t i = 0; bool bad = false;
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n')) ++i; }
    bool eat(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
    std::string str() { std::string r; if (!eat('"')) { bad = true; return r; } while (i < t.size() && t[i] != '"') r.push_back(t[i++]); if (i >= t.size()) bad = true; else ++i; return r; }
    std::string value() { ws(); std::string r; int d = 0; bool q = false; while (i < t.size()) { char c = t[i]; if (!q && d == 0 && (c == ',' || c == '}' || c == '\n')) break; if (c == '"') q = !q; if (!q && (c == '[' || c == '{')) ++d; if (!q && (c == ']' || c == '}')) --d; r.push_back(c); ++i; } if (r.empty()) bad = true; return r; }
    void object(const std::vector<Node>& want) {
        if (!eat('{')) { bad = true; return; }
        for (size_t k = 0; k < want.size() && !bad; ++k) {
            if (k && !eat(',')) { bad = true; return; }
            if (str() != want[k].key || !eat(':')) { bad = true; return; }
            if (want[k].kind) object(want[k].kids); else if (value() != want[k].text) bad = true;
        }
        if (!bad && !eat('}')) bad = true;
    }
};
extern "C" void sym_main() {
    std::ostringstream os; std::vector<Node> top; std::vector<std::vector<Node>*> open{&top}; static const char keys[8][2] = {"a", "b", "c", "d", "e", "f", "g"}; bool written = false;
    // a container that is reallocated would invalidate the pointers to open objects
    top.reserve(16);
    {
        json_stream js(SC("indent", 0, 2), os);
        size_t n = SC("ops", 0, OPS);
        for (size_t k = 0; k < n; ++k) {
            size_t o = SC("op", 0, 5); std::string key = keys[k]; auto& cur = *open.back();
            if (o == 3) { if (open.size() == 1) return; js.end_object(); open.pop_back(); continue; }
            written = true;
            if (o == 0) { uint64_t v = S64("value", 0, 9); js.entry(key, json(v)); std::string d(1, (char)('0' + v)); cur.push_back({key, 0, d, {}}); }
            else if (o == 1) { js.entry(key, json::array({1, "x"})); cur.push_back({key, 0, "[1,\"x\"]", {}}); }
            else if (o == 2) { js.begin_object(key); cur.push_back({key, 1, "", {}}); cur.back().kids.reserve(16); open.push_back(&cur.back().kids); }
            else if (o == 4) { json j = json::object(); size_t m = SC("members", 0, 2); Node nd{key, 1, "", {}}; if (m > 0) { j["u"] = 7; nd.kids.push_back({"u", 0, "7", {}}); } if (m > 1) { j["v"] = nullptr; nd.kids.push_back({"v", 0, "null", {}}); } js.entry_object(key, j); cur.push_back(nd); }
            else { js.entry_object(key, json("s")); cur.push_back({key, 0, "\"s\"", {}}); }
        }
        if (SC("close", 0, 1)) js.close(); // otherwise the destructor closes
    }
    std::string text = os.str();
    if (!written) { REQ(text.empty(), "nothing is written for nothing"); sym_reach("empty"); return; }
    Rd r{text}; r.object(top); r.ws(); REQ(!r.bad && r.i == text.size(), "the text is the document that was written"); sym_reach(open.size() > 1 ? "closed at the end" : "balanced");
}
