// C21: Markdown text and the HTML it stands for.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <web-markdown/Markdown.h>
using namespace ply;

struct Txt {
    char b[640];
    u32 n = 0;
    void add(char c) { CHECK(n < sizeof(b)); b[n++] = c; }
    void add(const char* s) { while (*s) add(*s++); }
    void add(const Txt& t) { for (u32 i = 0; i < t.n; i++) add(t.b[i]); }
    void esc(char c) {
        if (c == '<') add("&lt;");
        else if (c == '>') add("&gt;");
        else if (c == '&') add("&amp;");
        else if (c == '"') add("&quot;");
        else add(c);
    }
    bool is(const Txt& t) const { return n == t.n && sx_eq(b, t.b, n); }
    bool is(StringView t) const { return n == t.numBytes && sx_eq(b, t.bytes, n); }
};

static String toHTML(StringView src) {
    Owned<markdown::Node> doc = markdown::parse(src);
    CHECK(doc && doc->type == markdown::Node::Document && !doc->parent);
    MemOutStream mout;
    markdown::convertToHTML(&mout, doc, {});
    return mout.moveToString();
}

static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

// Whether html is well-formed, and the letters of its text and link targets are those of src in order.
static void checkWellFormed(StringView html, StringView src) {
    static const char* names[] = {"p", "em", "strong", "code", "pre", "ul", "ol", "li", "blockquote", "a", "h1", "h2", "h3", "h4", "h5", "h6"};
    u8 stack[64];
    u32 depth = 0;
    u32 hrefs[16][2];
    u32 numHrefs = 0;
    u32 s = 0; // position in src
    auto letters = [&](u32 from, u32 to) {
        for (u32 i = from; i < to; i++) {
            if (html[i] == '&') { // an entity
                u32 e = i + 1;
                while (e < to && html[e] != ';' && e < i + 8) e++;
                CHECKM(e < to && html[e] == ';', "& is written as an entity");
                i = e;
            } else if (alpha(html[i])) {
                while (s < src.numBytes && !alpha(src[s])) s++;
                CHECKM(s < src.numBytes, "no text is invented");
                CHECKM(src[s] == html[i], "text is passed on in order");
                s++;
            }
        }
    };
    u32 i = 0;
    while (i < html.numBytes) {
        u32 from = i;
        while (i < html.numBytes && html[i] != '<') {
            CHECKM(html[i] != '>' && html[i] != '"', "text is escaped");
            i++;
        }
        letters(from, i);
        if (i >= html.numBytes) break;
        bool close = ++i < html.numBytes && html[i] == '/';
        i += close;
        u32 name = i;
        while (i < html.numBytes && (alpha(html[i]) || (html[i] >= '0' && html[i] <= '9'))) i++;
        int k = -1;
        for (u32 t = 0; t < 16; t++)
            if (html.subStr(name, i - name) == names[t]) k = t;
        CHECKM(k >= 0, "only known tags");
        if (close) {
            CHECKM(depth > 0 && stack[depth - 1] == k, "tags are closed in order");
            depth--;
            if (k == 9) { numHrefs--; letters(hrefs[numHrefs][0], hrefs[numHrefs][1]); }
        } else {
            CHECK(depth < 64);
            stack[depth++] = (u8) k;
            if (k == 9 || (k == 6 && html[i] == ' ')) {
                CHECK(html.subStr(i).startsWith(k == 9 ? " href=\"" : " start=\""));
                i += k == 9 ? 7 : 8;
                from = i;
                while (i < html.numBytes && html[i] != '"') { CHECK(html[i] != '<' && html[i] != '>'); i++; }
                if (k == 9) { CHECK(numHrefs < 16); hrefs[numHrefs][0] = from; hrefs[numHrefs++][1] = i; }
                i++;
            }
        }
        CHECKM(i < html.numBytes && html[i] == '>', "tags are complete");
        i++;
    }
    CHECKM(depth == 0, "all tags are closed");
    while (s < src.numBytes) CHECKM(!alpha(src[s++]), "no text is lost");
}

// Any bytes.
ENTRY h_md_any() {
    sx_mark_heap();
    {
        u32 n = (u32) sx_pick(0, sx_param("N", 4), "n");
        SxBuf src(n, "src");
        String html = toHTML({src.p, n});
        checkWellFormed(html, {src.p, n});
    }
    sx_check_leaks();
    sx_reach("end");
}

// Any sequence of markup.
ENTRY h_md_tokens() {
    static const char* tokens[] = {"a", "\n", "- ", "> ", "    ", " ", "# ", "1. ", "*", "`", "[", "](", ")", "\\", "_", "\t", "#", "\n\n", "\r\n", "\xc3\xa9", "<", "2) "};
    sx_mark_heap();
    {
        u32 n = (u32) sx_param("N", 4), kinds = (u32) sx_param("KINDS", 22), lo = (u32) sx_param("LO", 0);
        Txt src;
        for (u32 i = 0; i < n; i++) src.add(tokens[sx_pick(lo, kinds - 1, "token")]);
        char* p = (char*) malloc(src.n);
        memcpy(p, src.b, src.n);
        {
            String html = toHTML({p, src.n});
            checkWellFormed(html, {p, src.n});
        }
        free(p);
    }
    sx_check_leaks();
    sx_reach("end");
}

// Blocks: documents are made up as trees, written as Markdown and as HTML, and compared.
struct Gen {
    Txt md, html;
    u32 leaf = 0, focus = (u32) sx_pick(0, sx_param("LEAVES", 4), "focus"); // the leaf that is varied
    u32 most = (u32) sx_param("DEPTH", 1);
    bool rich = false, afterList = false;
    u32 lists = 0, quotes = 0;
    u32 vary(u32 n, const char* name) { return rich ? (u32) sx_pick(0, n, name) : 0; }
    char rest[32]; u32 nrest = 0;   // what lines of the current container start with
    char first[48]; u32 nfirst = 0; // what the next line starts with, if it opens containers
    bool pending = false;
    void begin() {
        if (pending) for (u32 i = 0; i < nfirst; i++) md.add(first[i]);
        else for (u32 i = 0; i < nrest; i++) md.add(rest[i]);
        pending = false;
    }
    void blank() {
        CHECK(!pending);
        u32 k = nrest;
        while (k > 0 && rest[k - 1] == ' ') k--;
        for (u32 i = 0; i < k; i++) md.add(rest[i]);
        md.add('\n');
    }
    void push(const char* f, const char* r) {
        if (!pending) { memcpy(first, rest, nrest); nfirst = nrest; pending = true; }
        while (*f) first[nfirst++] = *f++;
        while (*r) rest[nrest++] = *r++;
    }
    char letter() {
        if (!rich) return 'z';
        char c = (char) sx_var(8, "c");
        ASSUME((c >= 'b' && c <= 'z') || c == '<' || c == '&' || c == '"' || (u8) c == '(');
        return c;
    }
    enum { Para, Head, Code, Quote, List, None };
    // A sequence of blocks; bare: paragraphs are written without tags. Returns whether a paragraph is left open.
    void blocks(u32 depth, bool tight, bool bare, u32 maxBlocks) {
        u32 prev = None;
        u32 num = (u32) sx_pick(1, maxBlocks, "num");
        for (u32 i = 0; i < num; i++) {
            u32 kind = (u32) sx_pick(Para, depth > 0 ? List : Code, "kind");
            // What may follow what without a blank line in between.
            bool needBlank = (prev == Para && (kind == Para || kind == Code)) || ((prev == Quote || prev == List) && (kind == Para || kind == Code || kind == prev)) || prev == Code;
            if (prev == Code && kind == Code) sx_stop();
            if (prev == List && (kind == List || kind == Code)) sx_stop(); // would continue it
            if (prev == Code && kind != Code) needBlank = false;
            if (needBlank && tight) sx_stop();
            bool blanked = false;
            if (prev != None && !tight && (needBlank || bare || prev == kind || sx_pick(0, 1, "blank"))) blank(), blanked = true;
            if (kind == Code && nrest > 0 && (pending ? first[nfirst - 1] : rest[nrest - 1]) == '>') sx_stop(); // would lose a space
            afterList = prev == List; // where indentation would continue it
            block(kind, depth, tight, bare, blanked ? None : prev);
            if (bare && kind == Para && i + 1 < num) html.add('\n');
            prev = kind;
        }
    }
    void block(u32 kind, u32 depth, bool noBlank, bool bare, u32 prev = None) {
        if (kind < Quote) rich = leaf++ == focus;
        if (kind == Para) {
            if (!bare) html.add("<p>");
            begin();
            u32 in = afterList ? 0 : vary(1, "indent") * 3; // up to three spaces
            if (in && nrest) in = 1;
            for (u32 i = 0; i < in; i++) md.add(' ');
            md.add('a'); html.add('a');
            char c = letter();
            md.add(c); html.esc(c);
            if (vary(1, "lines")) {
                md.add('\n'); html.add('\n');
                begin();
                md.add('a'); html.add('a');
            }
            md.add('\n');
            if (!bare) html.add("</p>\n");
        } else if (kind == Head) {
            u32 level = vary(1, "level") * 5 + 1;
            begin();
            for (u32 i = 0; i < level; i++) md.add('#');
            md.add(" a\n");
            html.add("<h"); html.add((char) ('0' + level)); html.add(">a</h"); html.add((char) ('0' + level)); html.add(">\n");
        } else if (kind == Code) {
            html.add("<pre><code>");
            begin();
            md.add("    ");
            u32 extra = vary(1, "extra");
            if (extra) { md.add(' '); html.add(' '); }
            char c = letter();
            md.add(c); md.add(" *a\n");
            html.esc(c); html.add(" *a\n");
            u32 more = vary(3, "more");
            if (noBlank && more > 1) sx_stop();
            for (u32 i = 1; i < more; i++) { blank(); html.add('\n'); }
            if (more) { begin(); md.add("    - b\n"); html.add("- b\n"); }
            html.add("</code></pre>\n");
        } else if (kind == Quote) {
            u32 save = nrest;
            html.add("<blockquote>\n");
            u32 space = quotes++ ? 2 : (u32) sx_pick(0, 2, "space");
            if (space == 2) push("> ", "> ");
            else if (space == 1) push(">", "> ");
            else push(">", ">");
            blocks(space ? depth - 1 : 0, noBlank, false, (u32) sx_param("INNER", 2));
            html.add("</blockquote>\n");
            nrest = save;
        } else {
            u32 marker = lists++ ? (u32) sx_pick(0, prev == Para ? 0 : 1, "marker") * 2 : (u32) sx_pick(0, prev == Para ? 1 : 3, "marker"); // only 1. would interrupt a paragraph
            static const char* marks[] = {"- ", "* ", "3. ", "12) "};
            static const char* pads[] = {"  ", "  ", "   ", "    "};
            static const char* opens[] = {"<ul>\n", "<ul>\n", "<ol start=\"3\">\n", "<ol start=\"12\">\n"};
            bool loose = !noBlank && sx_pick(0, 1, "loose");
            u32 items = (u32) sx_pick(loose ? 2 : 1, depth < most ? 2 : sx_param("ITEMS", 2), "items");
            if (items < 2 && loose) sx_stop();
            html.add(opens[marker]);
            for (u32 i = 0; i < items; i++) {
                u32 save = nrest;
                if (i && loose) blank();
                push(marks[marker], pads[marker]);
                html.add("<li>");
                u32 at = html.n;
                u32 k = (u32) sx_pick(Para, depth > 1 ? List : Head, "kind");
                bool nested = k != Para;
                if (nested || loose) html.add('\n');
                afterList = false;
                block(k, depth - 1, !loose, !loose);
                if (sx_pick(0, 1, "second")) { // another block in the item
                    u32 k2 = (u32) sx_pick(Para, depth > 1 ? List : Code, "kind");
                    if (k2 == k || (k == List && k2 == Code)) sx_stop();
                    if (loose) blank();
                    else if (k == Code || k2 == Code || (k2 == Para && k != Head)) sx_stop();
                    if (k == Para && !loose) html.add('\n');
                    afterList = k == List;
                    block(k2, depth - 1, !loose, !loose, loose ? None : k);
                }
                (void) at;
                html.add("</li>\n");
                nrest = save;
            }
            html.add(marker < 2 ? "</ul>\n" : "</ol>\n");
        }
    }
};

ENTRY h_md_blocks() {
    sx_mark_heap();
    {
        Gen g;
        g.blocks((u32) sx_param("DEPTH", 1), false, false, (u32) sx_param("BLOCKS", 2));
        if (g.focus >= g.leaf) sx_stop();
        u32 n = g.md.n;
        if (sx_param("CUT", 0)) n--; // without the last newline
        char* p = (char*) malloc(n);
        memcpy(p, g.md.b, n);
        {
            String html = toHTML({p, n});
            if (n != g.md.n) { // code blocks keep the lines as they are
                Txt a, b;
                for (u32 i = 0; i < html.numBytes; i++) if (html[i] != '\n') a.add(html[i]);
                for (u32 i = 0; i < g.html.n; i++) if (g.html.b[i] != '\n') b.add(g.html.b[i]);
                CHECKM(a.is(b), "blocks, without the last newline");
            } else
                CHECKM(g.html.is(html), "blocks");
        }
        free(p);
    }
    sx_check_leaks();
    sx_reach("end");
}

// Items one below the other, with markers that continue a list or begin another one.
ENTRY h_md_lists() {
    static const char* markers[] = {"- ", "* ", "+ ", "1. ", "7. ", "1) ", "007) ", "123456789. ", "1234567890. ", "1x ", "-"};
    static const char* numbers[] = {"", "", "", "", "7", "", "7", "123456789"};
    static const char kinds[] = "-*+..)).";
    u32 kindCount = (u32) sx_param("KINDS", 8);
    sx_mark_heap();
    {
        Txt md, html;
        char list = 0;              // kind of the list that is open
        bool para = false;          // a paragraph of the document is open
        bool item = false;          // the item's paragraph is open
        u32 n = (u32) sx_pick(1, sx_param("N", 3), "n");
        // Loose lists are only known at their end
        u32 marker[6]; bool gap[6], starts[6], joins[6];
        if (sx_pick(0, 1, "lead")) {
            md.add("lead\n");
            html.add("<p>lead");
            para = true;
        }
        bool leadPara = para;
        char cur = 0;
        bool open = leadPara;       // some paragraph could take the line
        for (u32 i = 0; i < n; i++) {
            marker[i] = (u32) sx_pick(0, kindCount - 1, "marker");
            gap[i] = (i || leadPara) && sx_pick(0, 1, "gap");
            u32 m = marker[i];
            starts[i] = joins[i] = false;
            bool inDocPara = open && !cur && !gap[i];
            if (m < 8 && !(inDocPara && m > 3 && m != 5)) {
                joins[i] = cur == kinds[m];
                starts[i] = !joins[i];
                cur = kinds[m];
            } else if (gap[i] || !open) cur = 0;
            else if (cur) sx_stop(); // text right below an item
            open = true;
        }
        for (u32 i = 0; i < n; i++) {
            if (gap[i]) md.add('\n');
            md.add(markers[marker[i]]);
            md.add((char) ('a' + i));
            md.add('\n');
        }
        bool loose = false;
        for (u32 i = 0; i < n; i++) {
            u32 m = marker[i];
            if (starts[i] || joins[i]) {
                if (para) html.add("</p>\n");
                para = false;
                if (item) html.add(loose ? "</p>\n</li>\n" : "</li>\n");
                if (starts[i]) {
                    if (list) html.add(list == '.' || list == ')' ? "</ol>\n" : "</ul>\n");
                    list = kinds[m];
                    if (list != '.' && list != ')') html.add("<ul>\n");
                    else if (numbers[m][0]) { html.add("<ol start=\""); html.add(numbers[m]); html.add("\">\n"); }
                    else html.add("<ol>\n");
                    loose = false;
                    for (u32 j = i + 1; j < n && !starts[j] && !(gap[j] && !joins[j]); j++) loose = loose || gap[j];
                }
                html.add(loose ? "<li>\n<p>" : "<li>");
                html.add((char) ('a' + i));
                item = true;
            } else { // plain text
                if (gap[i] || (!para && !item)) {
                    if (para) html.add("</p>\n");
                    if (item) { html.add(loose ? "</p>\n</li>\n" : "</li>\n"); html.add(list == '.' || list == ')' ? "</ol>\n" : "</ul>\n"); }
                    item = false;
                    list = 0;
                    html.add("<p>");
                    para = true;
                } else html.add('\n');
                html.add(markers[m]);
                html.add((char) ('a' + i));
            }
        }
        if (para) html.add("</p>\n");
        if (item) { html.add(loose ? "</p>\n</li>\n" : "</li>\n"); html.add(list == '.' || list == ')' ? "</ol>\n" : "</ul>\n"); }
        char* p = (char*) malloc(md.n);
        memcpy(p, md.b, md.n);
        CHECKM(html.is(toHTML({p, md.n})), "lists");
        free(p);
    }
    sx_check_leaks();
    sx_reach("end");
}

// Inline elements of one paragraph, by CommonMark's algorithm for the constructs that are supported (code spans,
// emphasis, inline links). Where its finer rules matter - runs that could both open and close, brackets that stay open -
// both of the usual readings are accepted.
struct Inline {
    struct Item { u8 kind; char c; u32 count; bool opens, closes, both; Txt html; };
    enum { Html, Run, Bracket };
    const char* s;
    u32 n;
    bool strict;
    Item* items = (Item*) malloc(sizeof(Item) * 24);
    u32 num = 0;
    ~Inline() { free(items); }
    static bool white(char c) { return c == ' ' || c == '\n' || c == '\t'; }
    static bool punc(char c) { return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126); }
    Item& push(u8 kind) { CHECK(num < 24); Item& t = items[num++]; t.kind = kind; t.html.n = 0; t.count = 0; t.opens = t.closes = t.both = false; return t; }
    static void write(const Item& t, Txt& out) {
        if (t.kind == Html) out.add(t.html);
        else for (u32 i = 0; i < t.count; i++) out.add(t.c);
    }
    void erase(u32 from, u32 to) { for (u32 i = to; i < num; i++) items[from + i - to] = items[i]; num -= to - from; }
    void emphasis(u32 bottom) {
        for (u32 p = bottom; p < num; p++) {
            while (items[p].kind == Run && items[p].closes && items[p].count > 0) {
                u32 o = p;
                bool found = false;
                while (o > bottom && !found) {
                    const Item& q = items[--o];
                    found = q.kind == Run && q.c == items[p].c && q.opens && q.count > 0;
                    if (found && strict && (q.both || items[p].both) && (q.count + items[p].count) % 3 == 0 && !(q.count % 3 == 0 && items[p].count % 3 == 0)) found = false;
                }
                if (!found) { if (!strict) items[p].opens = false; break; }
                u32 k = items[o].count >= 2 && items[p].count >= 2 ? 2 : 1;
                Txt html;
                html.add(k == 2 ? "<strong>" : "<em>");
                for (u32 i = o + 1; i < p; i++) write(items[i], html);
                html.add(k == 2 ? "</strong>" : "</em>");
                items[o].count -= k;
                items[p].count -= k;
                erase(o + 1, p);
                // insert
                CHECK(num < 24);
                for (u32 i = num; i > o + 1; i--) items[i] = items[i - 1];
                num++;
                items[o + 1].kind = Html;
                items[o + 1].html = html;
                p = o + 2;
            }
        }
    }
    // Text of (dest) at i; returns the position behind it or 0.
    u32 target(u32 i, Txt& dest) {
        while (i < n && white(s[i])) i++;
        u32 depth = 0;
        for (; i < n; i++) {
            char c = s[i];
            if (c == '\\' && i + 1 < n && punc(s[i + 1])) { dest.add(s[++i]); continue; }
            if (c == '(') depth++;
            if (c == ')' && depth-- == 0) { depth = 0; break; }
            if (c >= 0 && c <= 32) break;
            dest.add(c);
        }
        if (depth) return 0;
        while (i < n && white(s[i])) i++;
        return i < n && s[i] == ')' ? i + 1 : 0;
    }
    void run(Txt& out) {
        for (u32 i = 0; i < n;) {
            char c = s[i];
            u32 k = i + 1;
            if (c == '`' || c == '*' || c == '_') while (k < n && s[k] == c) k++;
            if (c == '`') {
                u32 e = k, end = 0;
                while (e < n && !end) {
                    if (s[e] != '`') { e++; continue; }
                    u32 f = e;
                    while (f < n && s[f] == '`') f++;
                    if (f - e == k - i) end = f;
                    else e = f;
                }
                if (!end) { Item& t = push(Html); while (i < k) t.html.add(s[i++]); continue; }
                bool blank = true;
                for (u32 j = k; j < e; j++) blank = blank && white(s[j]);
                if (!blank && white(s[k]) && white(s[e - 1])) { k++; e--; }
                Item& t = push(Html);
                t.html.add("<code>");
                for (u32 j = k; j < e; j++) t.html.esc(s[j] == '\n' ? ' ' : s[j]);
                t.html.add("</code>");
                i = end;
            } else if (c == '*' || c == '_') {
                bool wb = i == 0 || white(s[i - 1]), wa = k == n || white(s[k]);
                bool pb = i > 0 && punc(s[i - 1]), pa = k < n && punc(s[k]);
                bool left = !wa && (!pa || wb || pb), right = !wb && (!pb || wa || pa);
                Item& t = push(Run);
                t.c = c;
                t.count = k - i;
                t.opens = left && (!strict || c == '*' || !right || pb);
                t.closes = right && (!strict || c == '*' || !left || pa);
                t.both = t.opens && t.closes;
                i = k;
            } else if (c == '[') {
                Item& t = push(Bracket);
                t.c = c; t.count = 1;
                i++;
            } else if (c == ']') {
                u32 o = num;
                while (o > 0 && items[o - 1].kind != Bracket) o--;
                Txt dest;
                u32 end = o > 0 && i + 1 < n && s[i + 1] == '(' ? target(i + 2, dest) : 0;
                i++;
                if (!end) {
                    if (strict && o > 0) { items[o - 1].kind = Html; items[o - 1].html.add('['); }
                    Item& t = push(Html); t.html.add(']');
                    continue;
                }
                emphasis(o);
                Txt html;
                html.add("<a href=\"");
                for (u32 j = 0; j < dest.n; j++) html.esc(dest.b[j]);
                html.add("\">");
                for (u32 j = o; j < num; j++) write(items[j], html);
                html.add("</a>");
                num = o - 1;
                if (strict) for (u32 j = 0; j < num; j++) if (items[j].kind == Bracket) { items[j].kind = Html; items[j].html.add('['); }
                Item& t = push(Html);
                t.html = html;
                i = end;
            } else {
                Item& t = num && items[num - 1].kind == Html && c != '\n' ? items[num - 1] : push(Html);
                t.html.esc(c);
                i++;
            }
        }
        emphasis(0);
        for (u32 j = 0; j < num; j++) write(items[j], out);
    }
};

ENTRY h_md_inline() {
    static const char* sets[][9] = {
        {"a", "*", " ", "_", "**", "\n", "`", "[", "](b)"}, // emphasis and what binds tighter
        {"a", "`", " ", "``", "\n", "<", "*", "[", "](b)"},
        {"[", "](", ")", "a", "(", "\\", " ", "\n", "*"},
    };
    static const char* starts[] = {"x", "x`", "x["};
    sx_mark_heap();
    {
        u32 set = (u32) sx_param("SET", 0), n = (u32) sx_param("N", 5), kinds = (u32) sx_param("KINDS", 9);
        Txt src;
        if (sx_pick(0, 1, "start")) src.add(starts[set]);
        for (u32 i = 0; i < n; i++) {
            const char* t = sets[set][sx_pick(0, kinds - 1, "token")];
            // Blanks at the ends of lines are not part of the paragraph.
            if ((*t == ' ' || *t == '\n') && (src.n == 0 || src.b[src.n - 1] == '\n' || (*t == '\n' && src.b[src.n - 1] == ' '))) sx_stop();
            src.add(t);
        }
        if (src.b[src.n - 1] == ' ') sx_stop();
        if (src.b[src.n - 1] == '\n') src.n--;
        for (u32 i = 0; i + 1 < src.n; i++) // list markers
            if (src.b[i] == '*' && src.b[i + 1] == ' ' && (i == 0 || src.b[i - 1] == '\n')) sx_stop();
        if (src.n == 0) sx_stop();
        Txt a, b;
        for (u32 k = 0; k < 2; k++) {
            Inline in{src.b, src.n, k == 1};
            Txt& out = k ? b : a;
            out.add("<p>");
            in.run(out);
            out.add("</p>\n");
        }
        char* p = (char*) malloc(src.n);
        memcpy(p, src.b, src.n);
        {
            String html = toHTML({p, src.n});
            CHECKM(a.is(html) || b.is(html), "inline elements");
        }
        free(p);
    }
    sx_check_leaks();
    sx_reach("end");
}

// Anchors of headings.
ENTRY h_md_anchor() {
    sx_mark_heap();
    {
        SxBuf id((u32) sx_pick(1, 2, "n"), "id");
        for (u32 i = 0; i < id.n; i++) ASSUME(id.p[i] >= 32 && id.p[i] < 127);
        Owned<markdown::Node> doc = markdown::parse("## a *b*\n");
        CHECK(doc->children.numItems() == 1 && doc->children[0]->type == markdown::Node::Heading);
        doc->children[0]->id = StringView{id.p, id.n};
        markdown::HTMLOptions options;
        options.childAnchors = sx_pick(0, 1, "anchors") != 0;
        MemOutStream mout;
        markdown::convertToHTML(&mout, doc, options);
        String html = mout.moveToString();
        Txt e;
        e.add(options.childAnchors ? "<h2 class=\"anchored\"><span class=\"anchor\" id=\"" : "<h2 id=\"");
        for (u32 i = 0; i < id.n; i++) e.esc(id.p[i]);
        e.add(options.childAnchors ? "\">&nbsp;</span>a <em>b</em></h2>\n" : "\">a <em>b</em></h2>\n");
        CHECKM(e.is(html), "anchor");
    }
    sx_check_leaks();
    sx_reach("end");
}
