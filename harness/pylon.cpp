// C18: Pylon text and the trees it stands for.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <pylon/Parse.h>
#include <pylon/Write.h>
using namespace ply;
using pylon::Node;

static bool word(u8 c) {
    return c == '_' || c == '$' || c == '-' || c == '.' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c >= 128;
}
static int hexDigit(u8 c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
// What a Pylon document says, read independently of the parser and compared against the tree it returned (node is
// null where only the validity of the rest of the document matters).
struct Ref {
    const u8* p;
    u32 n, i = 0;
    bool bad = false;
    bool at(u8 c) { return i < n && p[i] == c; }
    bool blank() { bool nl = false; while (i < n && (p[i] == ' ' || p[i] == '\t' || p[i] == '\r' || p[i] == '\n')) nl |= p[i++] == '\n'; return nl; }
    struct Text { u8 c[16]; u32 n = 0; void add(u8 b) { CHECK(n < 16); c[n++] = b; } StringView view() const { return {(const char*) c, n}; } };
    bool text(Text& t) {
        if (i >= n) return bad = true, false;
        if (p[i] != '"' && p[i] != '\'') {
            if (!word(p[i])) return bad = true, false;
            while (i < n && word(p[i])) t.add(p[i++]);
            return true;
        }
        u8 q = p[i++];
        bool multi = i + 1 < n && p[i] == q && p[i + 1] == q;
        if (multi) i += 2;
        for (;;) {
            if (i >= n) return bad = true, false;
            u8 c = p[i];
            if (c == q) {
                if (!multi) { i++; return true; }
                if (i + 2 < n && p[i + 1] == q && p[i + 2] == q) { i += 3; return true; }
                t.add(c);
                i++;
            } else if (c == '\n' || c == '\r') {
                if (!multi) return bad = true, false;
                if (c == '\n') t.add(c);
                i++;
            } else if (c == '\\') {
                if (i + 1 >= n) return bad = true, false;
                u8 e = p[i + 1];
                i += 2;
                if (e == 'n') t.add('\n');
                else if (e == 'r') t.add('\r');
                else if (e == 't') t.add('\t');
                else if (e == '\\' || e == '\'' || e == '"') t.add(e);
                else if (e == 'x') {
                    if (i + 1 >= n || hexDigit(p[i]) < 0 || hexDigit(p[i + 1]) < 0) return bad = true, false;
                    t.add((u8) (hexDigit(p[i]) * 16 + hexDigit(p[i + 1])));
                    i += 2;
                } else return bad = true, false;
            } else { t.add(c); i++; }
        }
    }
    static bool eq(StringView a, StringView b) { return a.numBytes == b.numBytes && sx_eq(a.bytes, b.bytes, a.numBytes); }
    void value(const Node* node) {
        blank();
        if (node) CHECKM(node->fileOfs == i, "location of a node");
        if (at('{')) {
            i++;
            if (node) CHECKM(node->isObject(), "object");
            Text keys[6];
            u32 k = 0;
            bool first = true;
            for (;;) {
                bool sep = blank();
                while (at(',') || at(';')) { i++; sep = true; blank(); }
                if (at('}')) { i++; break; }
                if (!first && !sep) { bad = true; return; }
                first = false;
                CHECK(k < 6);
                if (!text(keys[k])) return;
                for (u32 j = 0; j < k; j++) if (eq(keys[j].view(), keys[k].view())) { bad = true; return; }
                blank();
                if (!at(':') && !at('=')) { bad = true; return; }
                i++;
                const Node* c = nullptr;
                if (node) {
                    c = node->get(keys[k].view());
                    CHECKM(c->isValid(), "property missing");
                    CHECKM(k < node->object().items.numItems() && node->object().items[k].value == c && eq(node->object().items[k].key, keys[k].view()), "property order");
                }
                value(c);
                if (bad) return;
                k++;
            }
            if (node) CHECKM(node->object().items.numItems() == k, "properties");
        } else if (at('[')) {
            i++;
            if (node) CHECKM(node->isArray(), "array");
            u32 k = 0;
            for (;;) {
                blank();
                while (at(',') || at(';')) { i++; blank(); }
                if (at(']')) { i++; break; }
                const Node* c = nullptr;
                if (node) { CHECKM(k < node->arrayView().numItems, "items"); c = node->arrayView()[k]; }
                value(c);
                if (bad) return;
                k++;
            }
            if (node) CHECKM(node->arrayView().numItems == k, "items");
        } else {
            Text t;
            if (!text(t)) return;
            if (node) CHECKM(node->isText() && eq(node->text(), t.view()), "text");
        }
    }
};
static void parseAny(StringView src, bool report) {
    u32 errors = 0;
    String dump;
    pylon::Parser parser;
    if (report) parser.setErrorCallback([&](const pylon::ParseError& err) {
        errors++;
        CHECKM(err.fileOfs <= src.numBytes && err.message.view().numBytes > 0, "error location");
        MemOutStream mout;
        parser.dumpError(err, mout);
        dump = mout.moveToString();
    });
    pylon::Parser::Result r = parser.parse(src);
    CHECKM(r.root, "no root");
    bool ok = r.root->isValid();
    CHECKM(ok == !parser.anyError(), "error flag");
    if (report) CHECKM((errors > 0) == parser.anyError() && errors <= 1 && (errors == 0 || dump.numBytes > 0), "error callback");
    Ref ref{(const u8*) src.bytes, src.numBytes};
    ref.value(ok ? r.root.get() : nullptr);
    if (!ref.bad) ref.blank();
    CHECKM(ok == (!ref.bad && ref.i == ref.n), "validity");
}
ENTRY h_pylon_any() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 3), "n"), "b");
        // Objects with arbitrary property names are left to the other entries: their names are hashed.
        for (u32 i = 0; i < b.n; i++) ASSUME(b.p[i] != '{');
        parseAny({b.p, b.n}, sx_param("REPORT", 1));
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_pylon_property() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_pick(0, sx_param("N", 3), "n") + 3, "b");
        b.p[0] = '{';
        b.p[1] = 'k';
        ASSUME(!word((u8) b.p[2]));
        b.p[b.n - 1] = '}';
        parseAny({b.p, b.n}, sx_param("REPORT", 1));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Longer documents, token by token.
ENTRY h_pylon_tokens() {
    static const char* toks[] = {"x ", "a:", "b=", "\n", ",", "{", "}", "[", "]", "'a'", ";", "'b':", "\"\\n\"", "(", "\t", " \r\n"};
    sx_mark_heap();
    {
        String src;
        u32 outer = (u32) sx_pick(0, 1, "outer"), kinds = (u32) sx_param("KINDS", 10);
        src += outer ? "{" : "[";
        for (u32 n = (u32) sx_param("N", 5); n; n--) src += toks[sx_pick(0, kinds - 1, "token")];
        src += outer ? "}" : "]";
        parseAny(src, sx_param("REPORT", 0));
    }
    sx_check_leaks();
    sx_reach("end");
}
// Quoted strings.
ENTRY h_pylon_quoted() {
    sx_mark_heap();
    {
        SxBuf b((u32) sx_param("N", 7), "b");
        b.p[0] = '"';
        for (u32 i = 1; i < b.n; i++) {
            u8 c = (u8) b.p[i];
            if (sx_param("TRIPLE", 0)) ASSUME(c == '"' || (i >= 3 && (c == 'a' || c == '\\' || c == '\n')));
            else ASSUME(c == '"' || c == '\'' || c == '\\' || c == 'x' || c == 'n' || c == '4' || c == '\n' || c == '\r');
        }
        parseAny({b.p, b.n}, false);
    }
    sx_check_leaks();
    sx_reach("end");
}
struct Maker {
    u32 bytes = (u32) sx_param("BYTES", 3), nodes = (u32) sx_param("NODES", 4);
    HybridString text() {
        u32 n = (u32) sx_pick(0, bytes < 2 ? bytes : 2, "len");
        bytes -= n;
        String s = String::allocate(n);
        if (n) sx_bytes(s.bytes, n, "t");
        // The overlong forms of the escaped characters are outside this property.
        for (u32 i = 0; i < n; i++) ASSUME((u8) s.bytes[i] != 0xc0 && (u8) s.bytes[i] != 0xc1);
        return HybridString{std::move(s)};
    }
    StringView key() {
        static const char* keys[] = {"a", "", "\"\\", "two words", "\n\x01\x7f\t", "\xc3\xa9", "{'"};
        return keys[sx_pick(0, sx_param("KEYS", 4) - 1, "key")];
    }
    Owned<Node> node(u32 depth) {
        nodes--;
        u32 kind = depth == 0 ? 0 : (u32) sx_pick(0, 2, "kind");
        if (kind == 0) return Node::createText(text());
        u32 k = (u32) sx_pick(0, nodes < 2 ? nodes : 2, "items");
        Owned<Node> r = kind == 1 ? Node::createArray() : Node::createObject();
        for (u32 i = 0; i < k && nodes; i++) {
            if (kind == 1) r->array().append(node(depth - 1));
            else {
                StringView k = key();
                for (const Node::Object::Item& it : r->object().items) ASSUME(!Ref::eq(it.key, k));
                r->set(k, node(depth - 1));
            }
        }
        return r;
    }
};
static bool same(const Node* a, const Node* b) {
    if (a->type != b->type) return false;
    if (a->isText()) return Ref::eq(a->text(), b->text());
    if (a->isArray()) {
        if (a->arrayView().numItems != b->arrayView().numItems) return false;
        for (u32 i = 0; i < a->arrayView().numItems; i++) if (!same(a->arrayView()[i], b->arrayView()[i])) return false;
        return true;
    }
    if (a->object().items.numItems() != b->object().items.numItems()) return false;
    for (u32 i = 0; i < a->object().items.numItems(); i++) {
        const Node::Object::Item &x = a->object().items[i], &y = b->object().items[i];
        if (!Ref::eq(x.key, y.key) || !same(x.value, y.value)) return false;
        CHECKM(b->get(y.key.view()) == y.value.get(), "lookup");
    }
    return true;
}
ENTRY h_pylon_roundtrip() {
    sx_mark_heap();
    {
        Maker m;
        Owned<Node> root = m.node((u32) sx_param("DEPTH", 2));
        String text = pylon::toString(root);
        pylon::Parser parser;
        pylon::Parser::Result r = parser.parse(text);
        CHECKM(r.root && r.root->isValid() && !parser.anyError(), "written text does not parse");
        CHECKM(same(root, r.root), "round trip");
        Owned<Node> dup = root->copy();
        CHECKM(same(root, dup), "copy");
    }
    sx_check_leaks();
    sx_reach("end");
}
// An object against an insertion-ordered dictionary.
ENTRY h_pylon_object() {
    static const char* names[] = {"a", "b", "c", "name", "value", "", "key7", "key8", "key9"};
    u32 keys = (u32) sx_param("KEYS", 6), ops = (u32) sx_param("OPS", 4);
    sx_mark_heap();
    {
        Owned<Node> obj = Node::createObject();
        u32 order[16], n = 0, val[16], serial = 0;
        for (u32 o = 0; o < ops; o++) {
            u32 k = (u32) sx_pick(0, keys - 1, "key"), at = 0;
            StringView key = names[k];
            while (at < n && order[at] != k) at++;
            if (sx_pick(0, 1, "op")) {
                char v = (char) ('0' + ++serial);
                Borrowed<Node> got = obj->set(key, Node::createText(String{StringView{&v, 1}}));
                CHECKM(got->text() == StringView(&v, 1), "set result");
                if (at == n) order[n++] = k;
                val[at] = serial;
            } else {
                Owned<Node> got = obj->remove(key);
                CHECKM((at < n) == (bool) got, "remove result");
                if (at < n) {
                    char v = (char) ('0' + val[at]);
                    CHECKM(got->text() == StringView(&v, 1), "removed value");
                    n--;
                    for (u32 i = at; i < n; i++) { order[i] = order[i + 1]; val[i] = val[i + 1]; }
                }
            }
        }
        Owned<Node> orig;
        if (sx_pick(0, 1, "copy")) { orig = std::move(obj); obj = orig->copy(); } // texts are shared with the original
        CHECKM(obj->object().items.numItems() == n, "size");
        for (u32 i = 0; i < n; i++) CHECKM(obj->object().items[i].key.view() == StringView{names[order[i]]}, "order");
        for (u32 k = 0; k < keys; k++) {
            u32 at = 0;
            while (at < n && order[at] != k) at++;
            Borrowed<Node> got = obj->get(StringView{names[k]});
            if (at == n) CHECKM(!got->isValid(), "absent");
            else { char v = (char) ('0' + val[at]); CHECKM(got->isText() && got->text() == StringView(&v, 1), "present"); }
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
// Asking a node for what it is not yields an invalid node or an empty view, never a failure.
ENTRY h_pylon_absent() {
    sx_mark_heap();
    {
        Maker m;
        m.nodes = 3;
        Owned<Node> node = sx_pick(0, 1, "invalid") ? Node::createInvalid() : m.node(1);
        static const u32 at[] = {0, 1, 2, 3, 0x7fffffff, 0xffffffff};
        u32 i = at[sx_pick(0, 5, "index")];
        const Node* c = ((const Node*) node)->get(i);
        CHECK(c != nullptr && (c->isValid() == (node->isArray() && i < node->arrayView().numItems)));
        if (!node->isObject()) CHECK(!node->get("a")->isValid() && ((const Node*) node)->object().items.numItems() == 0);
        if (!node->isArray()) CHECK(node->arrayView().numItems == 0);
        if (!node->isText()) { CHECK(node->text().isEmpty() && !node->numeric().first); }
        Owned<Node> dup = node->copy();
        CHECK(dup->type == node->type);
    }
    sx_check_leaks();
    sx_reach("end");
}
