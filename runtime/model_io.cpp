// A minimal iostream library for symbolic execution: streams and stream buffers are the real templates of libstdc++'s headers,
// only locales (no facets), ios_base and the standard stream objects live here. Linked for harnesses with "// IO".
#include <ostream>
#include <istream>
#include <system_error>

namespace std {
	locale::locale() noexcept : _M_impl(nullptr) {}
	locale::locale(locale const &o) noexcept : _M_impl(o._M_impl) {}
	locale const &locale::operator=(locale const &o) noexcept { _M_impl = o._M_impl; return *this; }
	locale::~locale() noexcept {}
	bool locale::operator==(locale const &o) const noexcept { return _M_impl == o._M_impl; }

	ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_local_word(), _M_word_size(0), _M_word(nullptr), _M_ios_locale() {}
	ios_base::~ios_base() {}
	void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
	void ios_base::_M_call_callbacks(event) noexcept {}

	ios_base::failure::failure(char const *s, error_code const &e) : system_error(e) {}
	ios_base::failure::~failure() noexcept {}
	char const *ios_base::failure::what() const noexcept { return "ios_base::failure"; }
	void __throw_ios_failure(char const *s) { throw ios_base::failure(s, error_code{}); }
	void __throw_ios_failure(char const *s, int) { throw ios_base::failure(s, error_code{}); }
}
namespace {
	struct null_buf : std::streambuf {
		int_type overflow(int_type c) override { return c == traits_type::eof() ? 0 : c; }
	};
}
alignas(16) char dtl_cout_storage[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char dtl_cerr_storage[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char dtl_clog_storage[sizeof(std::ostream)] __asm__("_ZSt4clog");
namespace {
	alignas(16) char buf_storage[3][sizeof(null_buf)];
	struct Init {
		Init() {
			new (dtl_cout_storage) std::ostream(new (buf_storage[0]) null_buf);
			auto *e = new (dtl_cerr_storage) std::ostream(new (buf_storage[1]) null_buf);
			e->setf(std::ios_base::unitbuf);
			new (dtl_clog_storage) std::ostream(new (buf_storage[2]) null_buf);
		}
	} init __attribute__((init_priority(101)));
}
template class std::basic_ios<char>;
template class std::basic_streambuf<char>;
template class std::basic_ostream<char>;
template std::ostream &std::__ostream_insert(std::ostream &, char const *, std::streamsize);
template std::ostream &std::operator<<(std::ostream &, char const *);
template std::ostream &std::operator<<(std::ostream &, char);
template std::ostream &std::flush(std::ostream &);
template class std::basic_ios<wchar_t>;
template class std::basic_streambuf<wchar_t>;
template std::wostream &std::__ostream_insert(std::wostream &, wchar_t const *, std::streamsize);
template class std::basic_ostream<wchar_t>;
template std::wostream &std::operator<<(std::wostream &, wchar_t);
