// ENGINE: seq
// In-memory, chunked, offset, bounded and buffered byte streams against an array of bytes with a cursor.
#include <stingraykit/string/ToString.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/BufferedStream.h>
#include "../engine/pbt.h"
#include "../engine/util.h"
#include "../engine/token.h"

using namespace stingray;
using namespace pbt;

namespace
{
	typedef std::vector<u8> Bytes;

	Bytes randomBytes(Src& s, size_t n) { Bytes b(n); for (auto& x : b) x = (u8)s.below(256); return b; }

	// A stream of the test: an array of bytes with a cursor that transfers as little as the choices say, may refuse to grow and
	// logs every access outside of what it was allowed to serve.
	struct Rig : public virtual IByteStream
	{
		Src& src; Bytes data; size_t pos; size_t limit; bool stingy; unsigned ops;
		Rig(Src& src, const Bytes& data, size_t limit, bool stingy) : src(src), data(data), pos(0), limit(limit), stingy(stingy), ops(0) { }
		size_t part(size_t n) { ++ops; if (n > 1 && stingy && src.chance(1, 2)) return 1 + src.below(n - 1); return n; }
		virtual u64 Read(ByteData d, const ICancellationToken&)
		{
			const size_t n = part(std::min(d.size(), pos < data.size() ? data.size() - pos : 0));
			if (n) std::copy(data.begin() + pos, data.begin() + pos + n, d.data());
			pos += n;
			return n;
		}
		virtual u64 Write(ConstByteData d, const ICancellationToken&)
		{
			const size_t n = part(std::min(d.size(), limit > pos ? limit - pos : 0));
			if (pos + n > data.size()) data.resize(pos + n);
			if (n) std::copy(d.data(), d.data() + n, data.begin() + pos);
			pos += n;
			return n;
		}
		virtual void Seek(s64 offset, SeekMode mode)
		{
			++ops;
			s64 p = offset;
			switch (mode) { case SeekMode::Begin: break; case SeekMode::Current: p += pos; break; case SeekMode::End: p += data.size(); break; }
			if (p < 0 || (u64)p > data.size()) STINGRAYKIT_THROW(IndexOutOfRangeException(p, 0, data.size()));
			pos = p;
		}
		virtual u64 Tell() const { return pos; }
	};

	// What the stream under test is claimed to be.
	struct Ideal
	{
		Bytes* data;			// the array it is a window of
		size_t begin;			// first byte of the window
		size_t end;				// end of the window (npos: the end of the array)
		size_t pos;				// cursor relative to begin
		size_t limit;			// the array cannot grow beyond
		bool partial;			// transfers may be partial
		bool eofThrows;			// reading at the end may throw instead of returning 0
		bool emptyWriteThrows;
		bool fullThrows;		// writing at the end of a full window may throw instead of returning 0
		size_t size() const { return std::min(data->size(), end) - begin; }
		size_t writable() const { const size_t l = std::min(limit, end); return l > begin + pos ? l - begin - pos : 0; }
	};

	struct Guarded	// a buffer surrounded by canaries, to see writes outside of the requested piece
	{
		std::vector<u8> store; size_t n;
		explicit Guarded(size_t n) : store(n + 32, 0xA5), n(n) { }
		ByteData data() { return ByteData(store.data() + 16, n); }
		void check() const { for (size_t i = 0; i < 16; ++i) REQUIRE(store[i] == 0xA5 && store[16 + n + i] == 0xA5, "the stream wrote outside of the buffer of " << n << " bytes"); }
		void checkRest(size_t from) const { for (size_t i = from; i < n; ++i) REQUIRE(store[16 + i] == 0xA5, "the stream touched byte " << i << " although it reported " << from << " bytes"); }
	};

	void history(Src& s, Ctx& c, IByteStream& st, Ideal m, size_t maxSize, unsigned& interesting)
	{
		DummyCancellationToken token;
		while (s.more(40))
		{
			const size_t op = s.weighted({ 8, 7, 5, 2, 2, 2, 2, 1 });
			if (op == 0 || op == 6)
			{
				const size_t n = s.below(maxSize + 1);
				Guarded g(n);
				const size_t left = m.pos < m.size() ? m.size() - m.pos : 0;
				if (op == 0)
				{
					TR("Read(" << n << ") at " << m.pos << " of " << m.size() << "\n");
					u64 r = 0; bool thrown = false;
					try { r = st.Read(g.data(), token); } catch (const std::exception&) { thrown = true; }
					g.check();
					if (thrown) { REQUIRE(m.eofThrows && left == 0, "Read(" << n << ") at " << m.pos << " of " << m.size() << " threw"); continue; }
					REQUIRE(r <= std::min(n, left), "Read(" << n << ") at " << m.pos << " of " << m.size() << " returned " << r);
					if (!m.partial) REQUIRE_EQX(r, std::min(n, left), "Read(" << n << ") at " << m.pos << " of " << m.size());
					else REQUIRE(r > 0 || n == 0 || left == 0, "Read(" << n << ") reported the end at " << m.pos << " of " << m.size());
					for (size_t i = 0; i < r; ++i) REQUIRE_EQX((int)g.store[16 + i], (int)(*m.data)[m.begin + m.pos + i], "byte " << i << " of Read(" << n << ") at " << m.pos);
					g.checkRest(r);
					m.pos += r;
					if (r && r < n) ++interesting;
				}
				else if (!m.eofThrows)
				{
					const size_t want = std::min(n, left);
					if (s.coin())
					{
						TR("ReadAll(" << n << ")\n");
						REQUIRE_EQX(ReadAll(st, g.data(), token), want, "ReadAll(" << n << ") at " << m.pos << " of " << m.size());
					}
					else
					{
						TR("CheckedReadAll(" << n << ")\n");
						bool thrown = false;
						try { CheckedReadAll(st, g.data(), token); } catch (const InputOutputException&) { thrown = true; }
						REQUIRE_EQX(thrown, want != n, "CheckedReadAll(" << n << ") at " << m.pos << " of " << m.size());
					}
					g.check();
					for (size_t i = 0; i < want; ++i) REQUIRE_EQX((int)g.store[16 + i], (int)(*m.data)[m.begin + m.pos + i], "byte " << i << " of ReadAll(" << n << ") at " << m.pos);
					m.pos += want;
				}
			}
			else if (op == 1 || op == 7)
			{
				const Bytes d = randomBytes(s, s.below(maxSize + 1));
				const size_t room = m.writable();
				u64 w = 0; bool thrown = false;
				if (op == 1)
				{
					TR("Write(" << d.size() << ") at " << m.pos << " of " << m.size() << "\n");
					try { w = st.Write(ConstByteData(d.data(), d.size()), token); } catch (const std::exception&) { thrown = true; }
					if (thrown) { REQUIRE((m.emptyWriteThrows && d.empty()) || (m.fullThrows && room == 0), "Write(" << d.size() << ") at " << m.pos << " of " << m.size() << " threw"); }
					else
					{
						REQUIRE(w <= std::min(d.size(), room), "Write(" << d.size() << ") at " << m.pos << " with room for " << room << " returned " << w);
						if (!m.partial) REQUIRE_EQX(w, std::min(d.size(), room), "Write(" << d.size() << ") at " << m.pos);
						else REQUIRE(w > 0 || d.empty() || room == 0, "Write(" << d.size() << ") wrote nothing at " << m.pos << " with room for " << room);
					}
				}
				else
				{
					if (m.fullThrows && d.size() > room) continue;
					if (m.emptyWriteThrows && d.empty()) continue;
					TR("WriteAll(" << d.size() << ") at " << m.pos << " of " << m.size() << "\n");
					w = std::min(d.size(), room);
					if (s.coin())
						REQUIRE_EQX(WriteAll(st, ConstByteData(d.data(), d.size()), token), w, "WriteAll(" << d.size() << ")");
					else
					{
						try { CheckedWriteAll(st, ConstByteData(d.data(), d.size()), token); } catch (const InputOutputException&) { thrown = true; }
						REQUIRE_EQX(thrown, w != d.size(), "CheckedWriteAll(" << d.size() << ") with room for " << room);
					}
				}
				if (w)
				{
					const size_t at = m.begin + m.pos;
					if (m.data->size() < at + w) { m.data->resize(at + w); ++interesting; }
					std::copy(d.begin(), d.begin() + w, m.data->begin() + at);
					m.pos += w;
				}
			}
			else if (op == 2 || op == 3)
			{
				const SeekMode mode = SeekMode::Enum(s.pick<int>({ SeekMode::Begin, SeekMode::Current, SeekMode::End }));
				const s64 base = mode == SeekMode::Begin ? 0 : mode == SeekMode::Current ? (s64)m.pos : (s64)(m.end == (size_t)-1 ? m.size() : m.end - m.begin);
				const s64 bound = m.end == (size_t)-1 ? (s64)m.size() : (s64)std::min(m.end - m.begin, m.size());
				const s64 target = op == 2 ? (bound < 0 ? 0 : (s64)s.below((u64)bound + 1)) : s.pick<s64>({ -1, -2, -1000, -(s64)m.begin - 1, -(1ll << 40) });
				TR("Seek(" << target - base << ", " << mode.ToString() << ") to " << target << " of " << m.size() << "\n");
				bool thrown = false;
				try { st.Seek(target - base, mode); } catch (const std::exception& ex) { thrown = true; if (op == 2) FAIL("Seek(" << target - base << ", " << mode.ToString() << ") to " << target << " of " << m.size() << " threw " << ex.what()); }
				if (op == 2) m.pos = target;
				else REQUIRE(thrown, "Seek(" << target - base << ", " << mode.ToString() << ") before the beginning did not throw");
			}
			else if (op == 4)
				;
			else if (op == 5 && !m.eofThrows)
			{
				const size_t left = m.pos < m.size() ? m.size() - m.pos : 0;
				const size_t initial = 1 + s.below(maxSize);
				TR("ReadToEnd(" << initial << ") at " << m.pos << " of " << m.size() << "\n");
				const ConstByteArray a = ReadToEnd(st, initial, token);
				REQUIRE_EQX(a.size(), left, "size of ReadToEnd(" << initial << ") at " << m.pos << " of " << m.size());
				for (size_t i = 0; i < left; ++i) REQUIRE_EQX((int)a[i], (int)(*m.data)[m.begin + m.pos + i], "byte " << i << " of ReadToEnd");
				m.pos += left;
			}
			REQUIRE_EQX(st.Tell(), m.pos, "Tell() after the operation");
		}
		c.label("ops");
	}

	void finish(IByteStream& st, const Ideal& m)	// everything can be read back from the beginning
	{
		const size_t n = m.size();
		st.Seek(0);
		std::vector<u8> got(n);
		size_t at = 0;
		DummyCancellationToken token;
		while (at < n) { const u64 r = st.Read(ByteData(got.data() + at, n - at), token); REQUIRE(r > 0, "the stream ended at " << at << " of " << n); at += r; }
		for (size_t i = 0; i < n; ++i) REQUIRE_EQX((int)got[i], (int)(*m.data)[m.begin + i], "byte " << i << " of the final contents");
	}

	const size_t npos = (size_t)-1;
}

PROP(memory_stream, 3000, 60000, 0, "the array was extended or a transfer was cut by its end")
{
	const Bytes init = randomBytes(s, s.below(40));
	Bytes model = init; unsigned interesting = 0;
	const size_t kind = s.below(5);
	IByteStreamPtr st; Ideal m = { &model, 0, npos, 0, npos, false, false, false, false };
	Bytes store = init; store.push_back(0);
	if (kind == 0)
		st = CreateMemoryByteStream(ByteArray(init));
	else if (kind == 1)
	{ st = make_shared_ptr<ByteDataByteStream>(ByteData(store.data(), init.size())); m.limit = init.size(); }
	else if (kind == 2)
	{ st = CreateMemoryByteStream(init); m.limit = init.size(); }
	else
	{
		if (kind == 3) st = CreateMemoryByteStream(ConstByteArray(init)); else st = CreateMemoryByteStream(ConstByteData(store.data(), init.size()));
		m.limit = 0; m.fullThrows = true;
		if (m.size()) { u8 b = 0; REQUIRE(THROWS(st->Write(ConstByteData(&b, 1))), "a write to constant data was accepted"); }
	}
	TR("stream over kind " << kind << " of " << init.size() << " bytes\n");
	if (kind >= 3)
	{	// reading only
		struct NoWrite : public virtual IByteStream
		{
			IByteStreamPtr st; NoWrite(const IByteStreamPtr& st) : st(st) { }
			virtual u64 Read(ByteData d, const ICancellationToken& t) { return st->Read(d, t); }
			virtual u64 Write(ConstByteData, const ICancellationToken&) { return 0; }
			virtual void Seek(s64 o, SeekMode mode) { st->Seek(o, mode); }
			virtual u64 Tell() const { return st->Tell(); }
		} ro(st);
		history(s, c, ro, m, 24, interesting);
	}
	else
		history(s, c, *st, m, 24, interesting);
	finish(*st, m);
	if (kind == 1) { store.pop_back(); REQUIRE(store == model, "the bytes were not written to the storage given"); }
	c.nontrivial_if(interesting > 0);
}

PROP(chunked_stream, 3000, 60000, 0, "a transfer was cut by the end or the array was extended")
{
	typedef std::vector<ByteArray> Chunks;
	const shared_ptr<Chunks> chunks = make_shared_ptr<Chunks>();
	Bytes model; unsigned interesting = 0;
	while (s.more(6)) { const Bytes b = randomBytes(s, s.chance(1, 6) ? 0 : 1 + s.below(8)); chunks->push_back(ByteArray(b)); model.insert(model.end(), b.begin(), b.end()); TR("chunk of " << b.size() << "\n"); }
	if (chunks->empty())
	{
		const Bytes b = randomBytes(s, 1 + s.below(5));
		ChunkedMemoryByteStream<ByteArray> st(chunks);
		REQUIRE_EQ(st.Write(ConstByteData(b.data(), b.size())), b.size());
		REQUIRE_EQ(st.Tell(), b.size());
		model = b;
	}
	ChunkedMemoryByteStream<ByteArray> st(chunks);
	const Ideal m = { &model, 0, npos, 0, npos, false, true, true, false };
	history(s, c, st, m, 20, interesting);
	if (model.size()) finish(st, m);
	size_t total = 0; for (const auto& k : *chunks) total += k.size();
	REQUIRE_EQX(total, model.size(), "sum of the chunks");
	c.nontrivial_if(interesting > 0 && chunks->size() > 1);
}

PROP(windows, 4000, 80000, 0, "a transfer was cut or the array was extended")
{
	Bytes data = randomBytes(s, 1 + s.below(60)); unsigned interesting = 0;
	const bool grows = s.coin();
	const size_t limit = grows ? data.size() + s.below(40) : data.size();
	const bool stingy = s.coin();
	Rig rig(s, data, limit, stingy);
	const IByteStreamPtr base(&rig, [](IByteStream*) { }), under = base;
	Ideal m = { &rig.data, 0, npos, 0, limit, stingy, false, false, false };
	Bytes model = data; m.data = &model;
	IByteStreamPtr st = under;
	const size_t depth = 1 + s.below(3);
	for (size_t i = 0; i < depth; ++i)
	{
		const size_t size = m.size();
		const size_t off = s.below(size + 1);
		if (s.coin())
		{
			TR("ByteStreamWithOffset " << off << "\n");
			st = make_shared_ptr<ByteStreamWithOffset>(st, (s64)off);
			m.begin += off;
		}
		else
		{
			if (off == size) break;
			const size_t n = s.chance(1, 4) && m.end == npos ? (size - off) + s.below(10) + 1 : 1 + s.below(size - off);	// may extend beyond the data
			TR("ByteStreamWithOffsetAndSize " << off << " " << n << "\n");
			st = make_shared_ptr<ByteStreamWithOffsetAndSize>(st, (s64)off, (s64)n);
			m.begin += off; m.end = m.begin + n; m.fullThrows = true;
		}
	}
	// positions inside of the window, but beyond the data, are up to the stream below: the history seeks only to where there is data
	if (m.end != npos && m.end > model.size()) m.end = m.end;
	TR("data " << data.size() << " limit " << limit << (stingy ? " stingy" : "") << "\n");
	// nested windows may forbid writes earlier than the array does
	m.fullThrows = true;
	if (m.end != npos && m.end > model.size())
	{	// seeks from the end would leave the data: check the refusal only
		REQUIRE(THROWS(st->Seek(1, SeekMode::End)), "a seek beyond the end of the window was accepted");
		m.end = npos; 
		DummyCancellationToken token; Bytes buf(100);
		u64 got = 0; Bytes all; while ((got = st->Read(ByteData(buf.data(), buf.size()), token)) > 0) all.insert(all.end(), buf.begin(), buf.begin() + got);
		REQUIRE(all == Bytes(model.begin() + m.begin, model.end()), "a window that extends beyond the data gave other bytes");
		return;
	}
	if (m.end != npos)
	{
		const s64 n = (s64)(m.end - m.begin);
		REQUIRE(THROWS(st->Seek(n + 1)), "a seek beyond the end of the window was accepted");
		REQUIRE(THROWS(st->Seek(1, SeekMode::End)), "a seek beyond the end of the window was accepted");
		st->Seek(0);
	}
	history(s, c, *st, m, 30, interesting);
	REQUIRE(rig.data == model, "bytes outside of the window were changed, or bytes were lost");
	finish(*st, m);
	c.nontrivial_if(interesting > 0);
}

PROP(two_windows, 2000, 40000, 0, "both windows were used")
{
	Bytes model = randomBytes(s, 2 + s.below(40)); 
	Rig rig(s, model, model.size(), false);
	const IByteStreamPtr base(&rig, [](IByteStream*) { });
	const size_t cut = 1 + s.below(model.size() - 1);
	const size_t overlap = s.coin() ? 0 : s.below(cut);
	const size_t from[2] = { 0, cut - overlap }, size[2] = { cut, model.size() - cut + overlap };
	ByteStreamWithOffsetAndSize a(base, from[0], size[0]), b(base, from[1], size[1]);
	size_t pos[2] = { 0, 0 };
	unsigned used[2] = { 0, 0 };
	DummyCancellationToken token;
	while (s.more(30))
	{
		const size_t w = s.below(2); IByteStream& st = w ? (IByteStream&)b : (IByteStream&)a;
		++used[w];
		const size_t n = s.below(12), left = size[w] - pos[w];
		if (s.chance(1, 3))
		{	// the position is the window's own, wherever the other one left the stream
			const SeekMode::Enum mode = s.pick<SeekMode::Enum>({ SeekMode::Begin, SeekMode::Current, SeekMode::End });
			const s64 to = (s64)s.below(size[w] + 3) - 1;
			const s64 off = mode == SeekMode::Begin ? to : mode == SeekMode::Current ? to - (s64)pos[w] : to - (s64)size[w];
			TR("window " << w << " Seek(" << off << ", " << mode << ")\n");
			if (to < 0 || to > (s64)size[w]) REQUIRE(THROWS(st.Seek(off, mode)), "a seek out of window " << w << " was accepted");
			else { st.Seek(off, mode); pos[w] = to; }
		}
		else if (s.chance(1, 8))
		{
			const size_t to = s.below(model.size() + 1);
			TR("underlying stream Seek(" << to << ")\n");
			rig.Seek(to, SeekMode::Begin);
		}
		else if (s.coin())
		{
			Guarded g(n);
			TR("window " << w << " Read(" << n << ")\n");
			const u64 r = st.Read(g.data(), token);
			g.check();
			REQUIRE_EQX(r, std::min(n, left), "Read of window " << w);
			for (size_t i = 0; i < r; ++i) REQUIRE_EQX((int)g.store[16 + i], (int)model[from[w] + pos[w] + i], "byte " << i << " of window " << w);
			pos[w] += r;
		}
		else if (left)
		{
			const Bytes d = randomBytes(s, n);
			TR("window " << w << " Write(" << n << ")\n");
			REQUIRE_EQX(st.Write(ConstByteData(d.data(), d.size()), token), std::min(n, left), "Write to window " << w);
			std::copy(d.begin(), d.begin() + std::min(n, left), model.begin() + from[w] + pos[w]);
			pos[w] += std::min(n, left);
		}
		REQUIRE_EQX(st.Tell(), pos[w], "position of window " << w);
		REQUIRE(rig.data == model, "the bytes of the underlying stream");
	}
	c.nontrivial_if(used[0] && used[1]);
}

PROP(buffered_stream, 5000, 120000, 0, "a transfer was cut by the end, the array was extended, or the alignment is not 1")
{
	Bytes data = randomBytes(s, s.below(80)); unsigned interesting = 0;
	const size_t alignment = s.pick<size_t>({ 1, 1, 2, 4, 8, 16 }), buffer = alignment * (1 + s.below(5));
	const bool stingy = s.coin();
	const size_t limit = s.coin() ? data.size() : data.size() + s.below(60);
	Rig rig(s, data, limit, stingy);
	Bytes model = data;
	const IByteStreamPtr base(&rig, [](IByteStream*) { });
	BufferedStream st(base, buffer, alignment);
	TR("data " << data.size() << " buffer " << buffer << " alignment " << alignment << (stingy ? " stingy" : "") << " limit " << limit << "\n");
	Ideal m = { &model, 0, npos, 0, limit, stingy, false, false, false };
	history(s, c, st, m, 40, interesting);
	REQUIRE(rig.data == model, "the bytes of the underlying stream");
	finish(st, m);
	REQUIRE(alignment == 1 || buffer % alignment == 0, "");
	if (alignment > 1) REQUIRE(THROWS(BufferedStream(base, buffer + 1, alignment)), "a buffer that is not a multiple of the alignment was accepted");
	c.nontrivial_if(interesting > 0 || alignment > 1);
}

PROP(read_line, 2000, 40000, 0, "the text has a carriage return")
{
	const std::string text = s.text("ab\r\n\r\n\n", 30);
	Bytes b(text.begin(), text.end());
	const IByteStreamPtr st = s.coin() ? CreateMemoryByteStream(b) : IByteStreamPtr(new BufferedStream(CreateMemoryByteStream(b), 1 + s.below(6)));
	std::vector<std::string> expect, got; std::string cur; bool open = false;
	for (size_t i = 0; i < text.size(); ++i)
	{
		if (text[i] == '\n' || text[i] == '\r') { expect.push_back(cur); cur.clear(); open = false; if (text[i] == '\r' && i + 1 < text.size() && text[i + 1] == '\n') ++i; }
		else { cur += text[i]; open = true; }
	}
	if (open) expect.push_back(cur);
	DummyCancellationToken token;
	for (;;)
	{
		const optional<std::string> l = ReadLine(*st, token);
		if (!l) break;
		got.push_back(*l);
		REQUIRE(got.size() <= text.size() + 1, "ReadLine does not end");
	}
	REQUIRE_EQX(got.size(), expect.size(), "number of lines");
	for (size_t i = 0; i < got.size(); ++i) REQUIRE_EQX(got[i], expect[i], "line " << i);
	CancelledToken cancelled;
	st->Seek(0);
	REQUIRE(THROWS(ReadLine(*st, cancelled)), "ReadLine ignored the cancellation");
	Bytes buf(4);
	REQUIRE_EQ(ReadAll(*st, ByteData(buf.data(), buf.size()), cancelled), 0u);
	REQUIRE(THROWS(CheckedReadAll(*st, ByteData(buf.data(), buf.size()), cancelled)), "CheckedReadAll ignored the cancellation");
	REQUIRE(THROWS(ReadToEnd(*st, 4, cancelled)), "ReadToEnd ignored the cancellation");
	REQUIRE_EQ(st->Tell(), 0u);
	c.nontrivial_if(text.find('\r') != std::string::npos);
}
