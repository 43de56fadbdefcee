// C26: reading C++ source text.
#include "sx.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>
#include <ply-cpp/Core.h>
#include <ply-cpp/Preprocessor.h>
#include <ply-cpp/PPVisitedFiles.h>
#include <ply-cpp/ErrorFormatting.h>
using namespace ply;
using namespace ply::cpp;

// A preprocessor on a file, as parsePlywoodSrcFile makes it
struct Reader {
    PPVisitedFiles vf;
    Preprocessor pp;
    u32 errors = 0;
    s64 lastError = -1, otherError = -1;
    Preprocessor::Error::Type lastType = Preprocessor::Error::Unknown;
    String messages;
    Reader(StringView text) {
        pp.visitedFiles = &vf;
        PPVisitedFiles::SourceFile& file = vf.sourceFiles.append();
        file.absPath = "/f";
        file.contents = text;
        file.fileLocMap = FileLocationMap::fromView(file.contents);
        vf.includeChains.append();
        Preprocessor::StackItem& item = pp.stack.append();
        item.vins = ViewInStream{file.contents};
        pp.linearLocAtEndOfStackTop = text.numBytes;
        PPVisitedFiles::LocationMapTraits::Item loc;
        loc.linearLoc = 0;
        vf.locationMap.insert(std::move(loc));
        pp.errorHandler = [this](Owned<BaseError>&& err) {
            Preprocessor::Error* e = static_cast<Preprocessor::Error*>(err.get());
            errors++;
            lastError = e->linearLoc; otherError = e->otherLoc; lastType = e->type;
            MemOutStream mem;
            e->writeMessage(&mem, &vf);
            messages = mem.moveToString();
        };
    }
    StringView text() const { return vf.sourceFiles[0].contents; }
    u32 at(StringView part) const { return (u32) (part.bytes - text().bytes); }
    // The offset that a location stands for
    u32 offsetOf(s64 loc) const {
        FileLocation l = expandFileLocation(&vf, loc).fileLoc;
        u32 line = 1, i = 0;
        while (line < l.lineNumber && i < text().numBytes) if (text()[i++] == '\n') line++;
        CHECKM(line == l.lineNumber, "line of a location");
        for (u32 k = 0; k < l.numBytesIntoLine; k++) CHECKM(i + k < text().numBytes && text()[i + k] != '\n', "place of a location in its line");
        return i + l.numBytesIntoLine;
    }
};
static bool letter(u8 c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$' || c >= 128; }
static bool digit(u8 c) { return c >= '0' && c <= '9'; }
static bool white(u8 c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static const char* const puncs[] = {"{", "}", "(", ")", "<", ">", "<=", ">=", "[", "]", ";", ":", "::", "=", "==", "!=", "+=", "-=", "->", "*=", "/=", ",", "?", "/", "*", "%", "&", "&&", "|", "||", "+", "++", "-", "--", "<<", ">>", ".", "~", "^", "!", "..."};
static bool isPunc(StringView s) { for (const char* p : puncs) if (s == p) return true; return false; }
// Nothing but a token of that type could be there.
static void checkToken(const Reader& r, const Token& t, u32 end) {
    StringView s = t.identifier, rest = r.text().subStr(end);
    bool more = rest.numBytes > 0;
    switch (t.type) {
        case Token::Identifier: {
            CHECKM(letter((u8) s[0]), "an identifier starts with a letter");
            for (u32 i = 1; i < s.numBytes; i++) CHECKM(letter((u8) s[i]) || digit((u8) s[i]), "an identifier is letters and digits");
            CHECKM(!more || !(letter((u8) rest[0]) || digit((u8) rest[0])), "an identifier is as long as it can be");
            break;
        }
        case Token::NumericLiteral: {
            CHECKM(digit((u8) s[0]), "a number starts with a digit");
            for (u32 i = 1; i < s.numBytes; i++)
                CHECKM(digit((u8) s[i]) || letter((u8) s[i]) || s[i] == '.' || ((s[i] == '+' || s[i] == '-') && (s[i - 1] == 'e' || s[i - 1] == 'E')), "a number is digits, letters and a point");
            CHECKM(!more || !digit((u8) rest[0]) || letter((u8) s.back()), "a number is as long as it can be");
            break;
        }
        case Token::LineComment: {
            CHECKM(s.startsWith("//"), "a comment starts with slashes");
            for (u32 i = 2; i + 1 < s.numBytes; i++) CHECKM(s[i] != '\n', "a comment is one line");
            CHECKM(!more || s.back() == '\n', "a comment is the rest of its line");
            break;
        }
        case Token::CStyleComment: {
            CHECKM(s.numBytes >= 4 && s.startsWith("/*") && s.endsWith("*/"), "a comment is between its marks");
            for (u32 i = 2; i + 2 < s.numBytes; i++) CHECKM(i + 3 >= s.numBytes || !(s[i] == '*' && s[i + 1] == '/'), "a comment ends at the first mark");
            break;
        }
        case Token::StringLiteral: {
            u32 q = 0;
            while (q < s.numBytes && s[q] != '"' && s[q] != '\'') q++;
            CHECKM(q + 1 < s.numBytes && s.back() == s[q], "a string is between quotes");
            if (q == 1 && s[0] == 'R') break;
            CHECKM(s[q] == '"' || q == 0, "a prefix is for strings");
            u32 i = q + 1;
            while (i < s.numBytes && s[i] != s[q]) i += s[i] == '\\' ? 2 : 1;
            CHECKM(i + 1 == s.numBytes, "a string ends at the first quote that is not escaped");
            break;
        }
        case Token::Directive: {
            CHECKM(s[0] == '#', "a directive starts with #");
            CHECKM(!more || s.back() == '\n', "a directive is the rest of its line");
            for (u32 i = end - s.numBytes; i-- > 0 && r.text()[i] != '\n';) CHECKM(white((u8) r.text()[i]), "a directive is the first on its line");
            break;
        }
        default: {
            CHECKM(s == getPunctuationString(t.type), "text of a punctuation mark");
            if (more) {
                char two[4] = {s[0], s.numBytes > 1 ? s[1] : rest[0], rest[0], 0};
                CHECKM(s.numBytes > 2 || !isPunc({two, s.numBytes + 1}), "a punctuation mark is as long as it can be");
                CHECKM(s != "." || !rest.startsWith(".."), "a punctuation mark is as long as it can be");
            }
            break;
        }
    }
}
static void readAll(Reader& r, bool exact) {
    u32 n = r.text().numBytes, pos = 0, count = 0, errors = 0;
    for (;;) {
        Token t = readToken(&r.pp);
        CHECKM(count++ <= n, "reading ends");
        CHECKM(t.isValid(), "tokens are valid");
        if (t.type == Token::EndOfFile) {
            if (r.errors == errors) for (u32 i = pos; i < n; i++) CHECKM(white((u8) r.text()[i]), "nothing is skipped but white space");
            CHECKM(t.linearLoc >= pos && t.linearLoc <= n, "the end of a file is after its last token");
            CHECKM(r.offsetOf(t.linearLoc) == t.linearLoc, "location of the end");
            break;
        }
        u32 at = r.at(t.identifier);
        CHECKM(t.identifier.bytes >= r.text().bytes && at >= pos && t.identifier.numBytes > 0 && at + t.identifier.numBytes <= n, "tokens are consecutive parts of the file");
        if (r.errors == errors) for (u32 i = pos; i < at; i++) CHECKM(white((u8) r.text()[i]), "nothing is skipped but white space");
        CHECKM(t.linearLoc == at, "location of a token");
        CHECKM(r.offsetOf(t.linearLoc) == at, "line and place of a token");
        if (r.errors == errors) checkToken(r, t, at + t.identifier.numBytes);
        if (exact) CHECKM(r.errors == errors, "text without errors");
        errors = r.errors;
        pos = at + t.identifier.numBytes;
    }
    CHECKM(readToken(&r.pp).type == Token::EndOfFile, "and stays there");
    CHECKM(r.errors == 0 || (r.lastError >= 0 && r.lastError <= n && r.messages.numBytes > 0), "errors have a location");
    CHECKM(!exact || r.errors == 0, "text without errors");
}
// One byte of text; exponents have no symbolic digits.
static char anyChar(const char* text, u32 i) {
    u8 c = (u8) sx_var(8, "b");
    ASSUME(c < 128 && c != 12 && c != 11);
    while (i-- > 0) {
        if (text[i] == 'e' || text[i] == 'E') {
            ASSUME(!digit(c));
            break;
        }
    }
    return (char) c;
}
// Any text
ENTRY h_cpp_tokens() {
    u32 n = (u32) sx_pick(0, sx_param("N", 3), "n");
    SxBuf b(n, "raw");
    for (u32 i = 0; i < n; i++) b.p[i] = anyChar(b.p, i);
    sx_mark_heap();
    {
        Reader r{{(const char*) b.p, n}};
        readAll(r, false);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Any token and what follows it
ENTRY h_cpp_follow() {
    static const char* const first[] = {"0", "1", "12", "0x1", "1.", "1.5", "1e", "1e5", "1e-5", "a", "R", "x1", "/", "/*", "//", "-", "<", ".", "..", "\"", "'", "#", "#if", "#define A", "\"\\"};
    static const u32 N = 32;
    u32 k = (u32) sx_pick(0, sizeof(first) / sizeof(first[0]) - 1, "first");
    u32 n = (u32) sx_param("N", 2), len = (u32) strlen(first[k]);
    char text[N];
    memcpy(text, first[k], len);
    for (u32 i = 0; i < n; i++) text[len + i] = anyChar(text, len + i);
    sx_mark_heap();
    {
        Reader r{{text, len + n}};
        readAll(r, false);
    }
    sx_check_leaks();
    sx_reach("end");
}
// A raw string ends at the first place where its delimiter and a quote follow a parenthesis.
ENTRY h_cpp_raw() {
    static const char chars[] = "()\"a\\";
    u32 d = (u32) sx_pick(0, 2, "d"), n = (u32) sx_pick(0, sx_param("N", 5), "n");
    char text[32] = "R\"";
    u32 len = 2;
    for (u32 i = 0; i < d; i++) { text[len] = (char) sx_var(8, "delim"); ASSUME(text[len] == 'a' || text[len] == 'b'); len++; }
    u32 open = len;
    text[len++] = '(';
    for (u32 i = 0; i < n; i++) text[len++] = chars[sx_pick(0, 4, "char")];
    u32 end = 0;
    for (u32 i = open + 1; !end && i + d + 1 < len; i++) {
        bool ends = text[i] == ')' && text[i + d + 1] == '"';
        for (u32 k = 0; ends && k < d; k++) ends = text[i + 1 + k] == text[2 + k];
        if (ends) end = i + d + 2;
    }
    sx_mark_heap();
    {
        Reader r{{text, len}};
        Token t = readToken(&r.pp);
        if (end) {
            CHECKM(t.type == Token::StringLiteral && r.at(t.identifier) == 0 && t.identifier.numBytes == end && r.errors == 0, "a raw string ends at its delimiter");
            sx_reach("string");
        } else {
            CHECKM(t.type == Token::EndOfFile && r.errors == 1 && r.lastType == Preprocessor::Error::EOFInStringLiteral && r.otherError == 0, "a raw string that does not end is an error");
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
// Lines of directives, comments and code
ENTRY h_cpp_lines() {
    static const char* const pieces[] = {"#\n", "# \t\n", "#if x\n", "#define A \\\n  b\n", " #endif\n", "//c\n", "/*c*/\n", "x", "\n", "\t", "#define B \\\r\n  \\ b\r\n"};
    static const u8 types[] = {1, 1, 1, 1, 1, 2, 3, 4, 0, 0, 1};
    static const Token::Type kinds[] = {Token::EndOfFile, Token::Directive, Token::LineComment, Token::CStyleComment, Token::Identifier};
    u32 n = (u32) sx_param("N", 4), want[8], count = 0;
    char text[128];
    u32 len = 0;
    bool fresh = true, word = false;
    for (u32 i = 0; i < n; i++) {
        u32 k = (u32) sx_pick(0, 10, "piece");
        ASSUME(types[k] != 1 || fresh);
        if (types[k] == 4) { if (!word) want[count++] = 4; }
        else if (types[k]) want[count++] = types[k];
        fresh = types[k] == 4 ? false : k == 9 ? fresh : true;
        word = types[k] == 4;
        memcpy(text + len, pieces[k], strlen(pieces[k]));
        len += (u32) strlen(pieces[k]);
    }
    sx_mark_heap();
    {
        Reader r{{text, len}};
        for (u32 i = 0; i < count; i++) CHECKM(readToken(&r.pp).type == kinds[want[i]], "directives, comments and code");
        CHECKM(readToken(&r.pp).type == Token::EndOfFile && r.errors == 0, "directives, comments and code");
        Reader again{{text, len}};
        readAll(again, true);
    }
    sx_check_leaks();
    sx_reach("end");
}
// Macros are replaced by their text; locations after them are still right.
ENTRY h_cpp_macros() {
    static const char* const pieces[] = {"E ", "T ", "F(a,(b,c)) ", "F ", "y ", "\n", "F(/*)*/)", "F (/(,),/)\n", "F(//)\n,)"};
    static const char* const args[][2] = {{}, {}, {"a", "(b,c)"}, {}, {}, {}, {"/*)*/", nullptr}, {"/(,)", "/"}, {"//)\n", ""}};
    u32 n = (u32) sx_param("N", 4);
    char text[128];
    u32 len = 0, piece[8], start[8];
    for (u32 i = 0; i < n; i++) {
        piece[i] = (u32) sx_pick(0, 8, "piece");
        start[i] = len;
        memcpy(text + len, pieces[piece[i]], strlen(pieces[piece[i]]));
        len += (u32) strlen(pieces[piece[i]]);
    }
    sx_mark_heap();
    {
        Reader r{{text, len}};
        addPPDef(&r.pp, "E", "");
        addPPDef(&r.pp, "T", "int z");
        addPPDef(&r.pp, "F", "q", true);
        auto plain = [&](u32 i) {
            Token t = readToken(&r.pp);
            CHECKM(t.type == Token::Identifier && r.at(t.identifier) == start[i] && t.identifier.numBytes == 1, "code after macros");
            CHECKM(r.offsetOf(t.linearLoc) == start[i], "line and place of a token");
        };
        auto expanded = [&](StringView word) {
            Token t = readToken(&r.pp);
            CHECKM(t.type == Token::Identifier && t.identifier == word, "text of a macro");
        };
        auto macro = [&](u32 i) {
            Token t = readToken(&r.pp);
            CHECKM(t.type == Token::Macro && r.at(t.identifier) == start[i] && t.identifier.numBytes == 1, "a macro");
        };
        for (u32 i = 0; i < n; i++) {
            switch (piece[i]) {
                case 0: macro(i); CHECK(!r.pp.macroArgs); break;
                case 1: macro(i); expanded("int"); expanded("z"); break;
                case 2: case 6: case 7: case 8: {
                    const char* const* want = args[piece[i]];
                    macro(i);
                    CHECKM(r.pp.macroArgs.numItems() == (want[1] ? 2 : 1) && r.pp.macroArgs[0].identifier == want[0] && (!want[1] || r.pp.macroArgs[1].identifier == want[1]), "arguments of a macro");
                    expanded("q");
                    break;
                }
                case 3: plain(i); break;
                case 4: plain(i); break;
                default: break;
            }
        }
        Token t = readToken(&r.pp);
        CHECKM(t.type == Token::EndOfFile && r.errors == 0, "and nothing else");
        u32 last = len;
        while (last > 0 && white((u8) text[last - 1])) last--;
        u32 eof = r.offsetOf(t.linearLoc);
        CHECKM(eof >= last && eof <= len, "the end of a file is after its last token");
    }
    sx_check_leaks();
    sx_reach("end");
}
