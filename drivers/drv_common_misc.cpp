// Encoding conversion.
#include "latdump.hpp"
#include "encoding_converter.hpp"

// [op, ...]
VCMD(enc) {
    const std::string& n = a[0].s();
    guarded(o, [&] {
        EncodingConverter c;
        if (n == "convert") o.s(c.convert(a[1].s(), a[2].s(), a[3].s()));
        else if (n == "to8") o.s(c.convert(a[1].s(), a[2].s()));
        else if (n == "auto") { std::string d = c.detect(a[1].s()); o.open().s(d).s(c.convert(a[1].s())).close(); }
        else if (n == "list") { o.open(); for (auto& s : EncodingConverter::getAllEncodings()) o.s(s); o.close(); }
        else throw drv::BadRequest("enc op");
    });
}
