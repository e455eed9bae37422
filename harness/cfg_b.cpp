// A second translation unit of the same program: the headers must tolerate it in every configuration.
#include <boost/url.hpp>
#include <boost/url/url.hpp>
#include <boost/url/basic_url.hpp>
#include <boost/url/static_pool.hpp>

__attribute__((visibility("default"))) int cfg_second_unit(boost::urls::string_view s)
{
    boost::urls::url_view v(s);
    boost::urls::url u{s};
    u.set_host("h");
    boost::urls::static_pool<128> p;
    return int(v.segments().size() + u.params().size() + u.host(p.allocator()).size());
}
