// C26: identities over more links than a 16-bit identifier tells apart
#include "client.hpp"

using namespace pbt;
using app::App;
using app::Client;

namespace {
bool throws(auto&& f) {
    try {
        f();
    }
    catch (const std::exception&) {
        return true;
    }
    return false;
}
} // namespace

PROPERTY("C26.reuse", 8, 100,
         "one link handshaken then ended, followed by 65600 links (more than any 16-bit identifier) of which the last ones stay: the handle of the first still throws and reaches nobody; non-trivial: all") {
    app::resetLibrary();
    App a(nullptr);
    std::vector<app::UI> uis;
    a.wf.onUIStarted([&](app::UI u) { uis.push_back(u); });
    auto first = static_cast<size_t>(s.draw(3)), last = first + 65530; // links before the handle is kept, links ended after it
    c.describe(cat("handle of link ", first, " used after ", last, " more links"));
    std::vector<std::unique_ptr<Client>> stay;
    for (size_t i = 0; i < last + 70; ++i) {
        auto k = std::make_unique<Client>(a.world);
        k->send(app::upgradeRequest);
        if (i == first || i > last) {
            a.settle();
            k->send(ref::clientFrame(2, app::handshakeMessage(), 1));
            a.settle();
        }
        if (i > last) stay.push_back(std::move(k));
        else {
            k->conn->clientEof = true;
            a.settle();
        }
    }
    CHECK(uis.size() == stay.size() + 1, uis.size(), " announcements");
    for (auto& k : stay) k->newFrames();
    CHECK(throws([&] { uis[0].addScript("stale"); }), "the handle of an ended link is used without an exception");
    CHECK(throws([&] { uis[0].jsFunction("f")("stale"); }), "the handle of an ended link is used without an exception");
    a.settle();
    for (auto& k : stay) CHECK(k->newFrames().empty(), "another browser receives the message");
    for (size_t i = 1; i < uis.size(); ++i) uis[i].addScript(cat("to ", i));
    a.settle();
    for (size_t i = 0; i < stay.size(); ++i) {
        auto f = stay[i]->newFrames();
        CHECK(f.size() == 1 && app::decode(f[0]).text == cat("to ", i + 1), "browser ", i, " does not receive its message");
    }
    c.nontrivial();
}

