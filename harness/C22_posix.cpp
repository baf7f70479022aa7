// Property C22 (files): a stream buffer over a C file writes exactly what it says it took, and flushing brings it there.
// ALSO: -std=gnu++20
// SOURCES: $SRC/estd/port/posix/streambuf.cpp
#include <estd/string.h>
#include <estd/iostream.h>
#include <stdio.h>
#include "mc.h"
using namespace mc;

// A file that takes as many characters as it has room for; buffered (delivered by sync only) or not
struct File { char text[12]; FILE* f; size_t room; bool buffered;
    File(size_t room, bool buffered) : room(room), buffered(buffered) { memset(text, '~', sizeof text); f = fopencookie(this, "w", cookie_io_functions_t{nullptr, &File::take, nullptr, nullptr}); setvbuf(f, nullptr, buffered ? _IOFBF : _IONBF, 64); }
    ~File() { room = 0; fclose(f); }
    std::string got;
    static ssize_t take(void* p, const char* s, size_t n) { File& f = *(File*)p; size_t k = std::min(n, f.room - f.got.size()); f.got.append(s, k); return k; } };

static void posix_out(Ctx& c)
{
    size_t room = c.of(std::vector<size_t>{0, 1, 3, 5, 40}); bool buffered = c.flip(); c.log("room %zu, %s", room, buffered ? "buffered" : "unbuffered");
    File file(room, buffered); estd::posix_streambuf<char> b(*file.f);
    std::string m; int next = 0; static const char letters[] = {'a', '\xff', '\0', 'b', '\n', 'c'}; bool broken = false;
    for(int d = 0; d < c.bound && !broken; d++)
    {
        int op = c.pick(3); if(op == 0)
        {
            char ch = letters[next]; c.log("sputc(%d)", (unsigned char)ch); int r = b.sputc(ch); bool ok = buffered || m.size() < room;
            if(ok) { CHECK(r == (unsigned char)ch, "put: %d gives %d", (unsigned char)ch, r); m += ch; next = (next + 1) % 6; } else { CHECK(r == -1, "put: gives %d though the file is full", r); broken = true; }
        }
        else if(op == 1)
        {
            int n = c.pick(5); std::string s; for(int i = 0; i < n; i++) s += letters[(next + i) % 6]; c.log("sputn(%s)", show(s).c_str()); int r = (int)b.sputn(s.data(), n), want = buffered ? n : (int)std::min<size_t>(n, room - m.size());
            CHECK(r == want, "put: %d of %d, expected %d", r, n, want); m += s.substr(0, want); next = (next + want) % 6; broken = want < n;
        }
        else
        {
            c.log("pubsync"); int r = b.pubsync(); bool ok = m.size() <= room; CHECK((r == 0) == ok, "sync: gives %d, %zu for room of %zu", r, m.size(), room); CHECK(file.got == m.substr(0, room), "sync: the file has %s, expected %s", show(file.got).c_str(), show(m.substr(0, room)).c_str()); broken = !ok;
        }
        if(!buffered) CHECK(file.got == m, "file: has %s, expected %s", show(file.got).c_str(), show(m).c_str()); else CHECK(m.compare(0, file.got.size(), file.got) == 0, "file: has %s, given %s", show(file.got).c_str(), show(m).c_str());
    }
    c.observe(m);
}
SCENARIO_FN(posix_file, posix_out, 5, 7);

// numbers and text through the stream on top
SCENARIO(posix_stream, 4, 6)
{
    bool buffered = c.flip(); File file(100, buffered); estd::posix_ostream<char> o(*file.f); std::string m;
    for(int d = 0; d < c.bound; d++) { switch(c.pick(6)) { case 0: o << "text"; m += "text"; break; case 1: o << -120; m += "-120"; break; case 2: o.put('\xff'); m += '\xff'; break; case 3: o.write("a\0b", 3); m += std::string("a\0b", 3); break; case 4: o << estd::endl; m += '\n'; CHECK(file.got == m, "end of line: the file has %s, expected %s", show(file.got).c_str(), show(m).c_str()); break; case 5: o.flush(); CHECK(file.got == m, "flush: the file has %s, expected %s", show(file.got).c_str(), show(m).c_str()); break; } CHECK(o.good(), "state: not good after %s", show(m).c_str()); }
    o.flush(); CHECK(file.got == m, "flush: the file has %s, expected %s", show(file.got).c_str(), show(m).c_str()); c.observe(m);
}
// a file that cannot take it
SCENARIO(posix_full, 1, 1)
{
    size_t room = c.pick(5), n = c.pick(6); File file(room, true); estd::posix_ostream<char> o(*file.f); std::string s("hello", n); o.write(s.data(), n); CHECK(o.good(), "state: buffered text is refused"); o.flush();
    CHECK(o.bad() == (n > room), "state: bad is %d with %zu for room of %zu", (int)o.bad(), n, room); CHECK(file.got == s.substr(0, room), "file: %s", show(file.got).c_str()); c.observe(s);
}
