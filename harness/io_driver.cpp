// Drives message handlers and data converters.
//   new
//   handler <kwta|group|pergroup|union> <k> <borders> <seed>
//   call <message>|<message>...        message: comma separated indexes, "-" for none at all
//   many <n> <message>                 n calls, the distinct results
//   seq <int|float|bool> <threshold|bool> <size> <token;token;...>     a sequence converter over the tokens (; is a blank)
//   idx <delimiter> <line;line;...>    an index converter
//   size <n>, next
//   out <count|bits|set> <size> <message>|...
#include "kvh.h"

#include <knp/core/messaging/messaging.h>
#include <knp/framework/io/in_converters/index_converter.h>
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/input_interpreters.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include <knp/framework/message_handlers.h>

#include <cmath>
#include <functional>
#include <memory>
#include <set>

using namespace kvh;
using knp::core::messaging::SpikeData;
using knp::core::messaging::SpikeMessage;
namespace in = knp::framework::io::input;
namespace io = knp::framework::io::output;
namespace md = knp::framework::modifier;

struct Io
{
    std::function<SpikeData(std::vector<SpikeMessage> &)> handler;
    std::function<SpikeData()> next;
    std::function<void(size_t)> size;
    std::string decl;
    uint64_t t = 0;
    bool lines_of_indexes = false;

    static std::string data(const SpikeData &d)
    {
        return arr(d, [](auto x) { return std::to_string(x < 1000000000 ? static_cast<long>(x) : 999999999L); });
    }
    std::vector<SpikeMessage> messages(const std::string &s)
    {
        std::vector<SpikeMessage> r;
        for (auto &m : split(s, '|'))
        {
            SpikeMessage x{{knp::core::UID(false), t}, {}};
            for (auto &i : split(m == "." ? "" : m, ',')) x.neuron_indexes_.push_back(std::stoul(i));
            r.push_back(x);
        }
        return r;
    }
    static std::string show(const std::vector<SpikeMessage> &ms)
    {
        return arr(ms, [](const SpikeMessage &m) { return data(m.neuron_indexes_); });
    }

    template <class T>
    void seq(const std::string &how, size_t n, const std::string &text)
    {
        std::function<bool(T)> f;
        if (how == "bool")
            f = in::interpret_as_bool<T>;
        else
            f = in::interpret_with_threshold<T>(static_cast<T>(std::stod(how)));
        auto c = std::make_shared<in::SequenceConverter<T>>(std::make_unique<std::istringstream>(text), f, n);
        next = [this, c] { return (*c)(t++); };
        size = [c](size_t k) { c->set_size(k); };
    }

    std::string exec(const std::string &l)
    {
        auto a = words(l);
        if (a[0] == "new")
        {
            handler = nullptr;
            next = nullptr;
            size = nullptr;
            t = 0;
            return "{\"ev\":\"reset\"}";
        }
        if (a[0] == "handler")
        {
            auto k = std::stoul(a[2]);
            std::vector<size_t> b;
            for (auto &x : split(a[3], ',')) b.push_back(std::stoul(x));
            int seed = std::stoi(a[4]);
            if (a[1] == "kwta")
            {
                auto h = std::make_shared<md::KWtaRandomHandler>(k, seed);
                handler = [h](auto &m) { return (*h)(m); };
            }
            else if (a[1] == "group")
            {
                auto h = std::make_shared<md::GroupWtaRandomHandler>(b, k, seed);
                handler = [h](auto &m) { return (*h)(m); };
            }
            else if (a[1] == "pergroup")
            {
                auto h = std::make_shared<md::KWtaPerGroup>(b, k, seed);
                handler = [h](auto &m) { return (*h)(m); };
            }
            else
                handler = [](auto &m) { return md::SpikeUnionHandler{}(m); };
            return "{\"ev\":\"handler\",\"kind\":" + q(a[1]) + ",\"k\":" + a[2] + ",\"b\":" + arr(b, [](auto x) { return std::to_string(x); }) + "}";
        }
        if (a[0] == "call")
        {
            auto ms = messages(a[1]);
            auto shown = show(ms);
            auto r = handler(ms);
            return "{\"ev\":\"call\",\"in\":" + shown + ",\"r\":" + data(r) + "}";
        }
        if (a[0] == "many")
        {
            std::set<std::string> rs;
            std::string shown;
            for (size_t i = 0; i < std::stoul(a[1]); ++i)
            {
                auto ms = messages(a[2]);
                shown = show(ms);
                rs.insert(data(handler(ms)));
            }
            return "{\"ev\":\"many\",\"in\":" + shown + ",\"rs\":" + arr(rs, [](auto &x) { return x; }) + "}";
        }
        if (a[0] == "seq")
        {
            auto toks = split(a[4], ';');
            lines_of_indexes = false;
            std::string text, shown;
            const char *sep[] = {" ", "\n", "  ", "\t", " \n"};
            size_t i = 0;
            for (auto &x : toks)
            {
                text += x + (i + 1 < toks.size() || toks.size() % 2 ? sep[(i + x.size()) % 5] : "");
                shown += (shown.empty() ? "" : ",") + std::to_string(std::lround(std::stod(x) * 4));
                ++i;
            }
            auto n = std::stoul(a[3]);
            if (a[1] == "int") seq<int>(a[2], n, text);
            else if (a[1] == "float") seq<float>(a[2], n, text);
            else seq<bool>(a[2], n, text);
            return "{\"ev\":\"seq\",\"n\":" + a[3] + ",\"bool\":" + (a[2] == "bool" ? "true" : "false") + ",\"thr\":" +
                   (a[2] == "bool" ? "0" : std::to_string(std::lround(std::stod(a[2]) * 4))) + ",\"data\":[" + shown + "]}";
        }
        if (a[0] == "idx")
        {
            std::string text, shown;
            auto lines = split(l.substr(6), ';');
            char d = a[1][0] == '_' ? ' ' : a[1][0];
            size_t i = 0;
            for (auto &x : lines)
            {
                std::string line, row;
                bool trail = !x.empty() && x.back() == ',';
                auto xs = split(trail ? x.substr(0, x.size() - 1) : x, ',');
                for (auto &y : xs)
                {
                    line += (line.empty() ? "" : std::string(1, d)) + y;
                    row += (row.empty() ? "" : ",") + q(y);
                }
                if (trail) line += d;
                text += line + (++i < lines.size() || lines.size() % 2 ? "\n" : "");
                shown += (shown.empty() ? "[" : ",[") + row + "]";
            }
            auto c = std::make_shared<in::IndexConverter>(std::make_unique<std::istringstream>(text), d);
            next = [this, c] { return (*c)(t++); };
            size = [](size_t) {};
            lines_of_indexes = true;
            return "{\"ev\":\"idx\",\"data\":[" + shown + "]}";
        }
        if (a[0] == "size")
        {
            size(std::stoul(a[1]));
            return "{\"ev\":\"size\",\"n\":" + a[1] + "}";
        }
        // indexes are opaque
        if (a[0] == "next" && lines_of_indexes)
            return "{\"ev\":\"next\",\"r\":" + arr(next(), [](auto x) { return q(std::to_string(x)); }) + "}";
        if (a[0] == "next") return "{\"ev\":\"next\",\"r\":" + data(next()) + "}";
        if (a[0] == "out")
        {
            auto n = std::stoul(a[2]);
            auto ms = messages(a[3]);
            std::string r;
            if (a[1] == "count")
                r = arr(io::converter_count(ms, n), [](auto x) { return std::to_string(x); });
            else if (a[1] == "bits")
                r = arr(io::converter_bitwise(ms, n), [](bool x) { return std::to_string(static_cast<int>(x)); });
            else
                r = arr(io::ConvertToSet(n)(ms), [](auto x) { return std::to_string(x); });
            return "{\"ev\":\"out\",\"kind\":" + q(a[1]) + ",\"n\":" + a[2] + ",\"in\":" + show(ms) + ",\"r\":" + r + "}";
        }
        throw std::runtime_error("unknown command " + l);
    }
};

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    Io io;
    for (auto &l : read_script(argv[1]))
    {
        try
        {
            out.line(io.exec(l));
        }
        catch (const std::exception &e)
        {
            out.line("{\"ev\":\"exception\",\"what\":" + q(e.what()) + "}");
        }
    }
    return 0;
}
