// Packing: P <file with the initial bytes> <src kind> <dst kind> <prefix src> <prefix dst> op...
// After every operation the digest of the bytes produced, and for "own" layers of what an
// independent inflater finds in them.
#include "drv.h"
#include "pattern.h"
#include "UZLib.h"
#include "SystemClasses/TMemoryStream.hpp"
#include "SystemClasses/TFileStream.hpp"
#include "TempStream.h"
#include <fstream>
#include <unistd.h>

static std::unique_ptr<TStream> make(const std::string &kind, int i)
{
	if (kind == "mem") return std::unique_ptr<TStream>(new TMemoryStream);
	if (kind == "temp") return std::unique_ptr<TStream>(new TTempStream);
	return std::unique_ptr<TStream>(new TFileStream("pk" + std::to_string(getpid()) + "_" + std::to_string(i), fmCreate));
}
// raw inflate in one piece; "" and false unless it is one complete stream without anything behind it
static bool unwrap(const std::string &s, std::string &out)
{
	z_stream z; memset(&z, 0, sizeof z);
	inflateInit2(&z, -15);
	z.next_in = (Bytef *)s.data(); z.avail_in = s.size();
	out.clear();
	std::vector<char> b(1 << 20);
	int r;
	do { z.next_out = (Bytef *)b.data(); z.avail_out = b.size(); r = inflate(&z, Z_NO_FLUSH); out.append(b.data(), b.size() - z.avail_out); } while (r == Z_OK && z.avail_out == 0);
	bool ok = r == Z_STREAM_END && z.avail_in == 0;
	inflateEnd(&z);
	return ok;
}
int main()
{
	return serve({{"P", [](const Args &a) {
		std::ifstream f(a[1], std::ios::binary);
		std::string cur((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		std::string res;
		for (size_t k = 6; k < a.size(); k++) {
			Args o = split(a[k], ':');
			J j;
			if (o[0] == "cut") cur.resize(o[1] == "1" ? cur.size() - 1 : o[1] == "half" ? cur.size() / 2 : std::min<size_t>(1, cur.size() - 1));
			else {
				std::string pre(atoi(a[4].c_str()), 'x'), got(atoi(a[5].c_str()), 'y');
				std::unique_ptr<TStream> src = make(a[2], 0), dst = make(a[3], 1);
				std::string all = pre + cur;
				if (!all.empty()) src->Write(all.data(), all.size());
				src->Seek(pre.size(), soFromBeginning);
				if (!got.empty()) dst->Write(got.data(), got.size());
				std::string err;
				try {
					if (o[0] == "deflate") { bool r = ZDeflateStream(src.get(), dst.get()); if (!r && !cur.empty()) err = "packing failed"; }
					else if (o[0] == "inflate") ZInflateStream(src.get(), dst.get());
					else ZInflateOrCopy(src.get(), dst.get());
				} catch (const std::exception &e) { err = "exception"; }
				j.str("err", err);
				j.boolean("end", dst->GetPosition() == dst->GetSize());
				std::string out(dst->GetSize(), 0);
				dst->Seek(0, soFromBeginning);
				if (!out.empty()) dst->Read(&out[0], out.size());
				j.boolean("prefix", out.compare(0, got.size(), got) == 0);
				if (err.empty()) cur = out.substr(std::min(out.size(), got.size()));
			}
			// take off the layers the expectation names
			std::string x = cur, y;
			int layers = atoi(o.back().c_str());
			bool ok = true;
			for (int n = 0; n < layers && ok; n++) { ok = unwrap(x, y); x.swap(y); }
			j.boolean("layers", ok).str("dig", digest(x)).num("len", cur.size());
			res += (k > 6 ? "," : "") + j.done();
		}
		for (int i = 0; i < 2; i++) unlink(("pk" + std::to_string(getpid()) + "_" + std::to_string(i)).c_str());
		return "{\"res\":[" + res + "]}";
	}}});
}
