// The code under test: /repo's program and library, compiled from the working tree.
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#define main chrono_program_main
#include "time.cpp"
#undef main
#include "sut.hpp"
#include <new>
#include <cstring>
#include <exception>

const char *const parser_names[P_COUNT] = {"CasualTime", "Deadline", "DayOfWeek", "CasualDate", "MonthDay", "TimeLater",
    "MonthName", "TimeAgo", "TimeExpression", "ISO", "Holiday", "WeekExpression", "RelativeDate"};

namespace {


struct Objects {
    // shared_ptr<void>-like ownership: Parser has no virtual destructor, so each is made with its own type
    std::shared_ptr<parser::Parser> p[P_COUNT];
    std::shared_ptr<refiners::Refiner> f[4];
    template<class T> std::shared_ptr<parser::Parser> mk() { return std::shared_ptr<parser::Parser>(new T); }
    void fill(int kind) {
        using namespace parser;
        if(p[kind]) return;
        switch(kind) {
        case P_CT:  p[kind] = mk<ENCasualTimeParser>(); break;
        case P_DL:  p[kind] = mk<ENDeadlineFormatParser>(); break;
        case P_DOW: p[kind] = mk<ENDayOfWeekParser>(); break;
        case P_CD:  p[kind] = mk<ENCasualDateParser>(); break;
        case P_MME: p[kind] = mk<ENMonthNameMiddleEndianParser>(); break;
        case P_TL:  p[kind] = mk<ENTimeLaterParser>(); break;
        case P_MN:  p[kind] = mk<ENMonthNameParser>(); break;
        case P_TA:  p[kind] = mk<ENTimeAgoFormatParser>(); break;
        case P_TX:  p[kind] = mk<ENTimeExpressionParser>(); break;
        case P_ISO: p[kind] = mk<ENISOFormatParser>(); break;
        case P_HOL: p[kind] = mk<ENHolidayParser>(); break;
        case P_WX:  p[kind] = mk<ENWeekExpressionParser>(); break;
        default:    p[kind] = mk<ENRelativeDateFormatParser>(); break;
        }
    }
    void refiners_() {
        if(!f[0]) f[0].reset(new OverlapRemover);
        if(!f[1]) f[1].reset(new ExtractTimeZoneAbbreviation);
        if(!f[2]) f[2].reset(new ENMergeDateAndTime);
        if(!f[3]) f[3].reset(new ENMergeDateRange);
    }
};

enum { SLOTS = 8 };
Objects *slots[SLOTS];

const int chain_order[12] = {P_CT, P_DL, P_DOW, P_CD, P_MME, P_TL, P_MN, P_TA, P_TX, P_ISO, P_HOL, P_WX};

void run(int kind, Objects &o, std::string &str, posix_time::ptime &t, Result &results) {
    if(kind < P_COUNT) {
        o.fill(kind);
        results = o.p[kind]->execute(str, t);
        return;
    }
    // the chain of time.cpp
    o.refiners_();
    for(int k : chain_order) {
        if(kind == 101 and k != P_CD and k != P_TX) continue;
        o.fill(k);
        Result p_result = o.p[k]->execute(str, t);
        results.insert(results.end(), p_result.begin(), p_result.end());
    }
    std::sort(results.begin(), results.end(), [&](parse::ParsedResult p1, parse::ParsedResult p2) {
        return p1.getIndex() < p2.getIndex();
    });
    for(auto &f : o.f)
        results = f->refine(results, str);
}

void setwhat(CallOut *out, const char *w) {
    std::strncpy(out->what, w, sizeof out->what - 1);
}

void comps(parse::ParsedComponents &c, int32_t *v, int32_t &certain, int shift) {
    v[0] = c.getYear(); v[1] = c.getMonth(); v[2] = c.get_mDay(); v[3] = c.getHour(); v[4] = c.getMinute();
    v[5] = c.getSeconds(); v[6] = c.get_wDay(); v[7] = c.getTimeZoneOffset();
    static const char *const names[] = {"year", "month", "mday", "wday", "hour", "sec", "tzoffset"};
    for(int i = 0; i < 7; i++)
        if(c.isCertain(names[i])) certain |= 1 << (i + shift);
}

} // namespace

int sut_program(int argc, char **argv) { return chrono_program_main(argc, argv); }

void sut_make_slot(int slot) {
    if(!slots[slot]) slots[slot] = new Objects();
}

void sut_fill_slot(int slot, int kind) {
    sut_make_slot(slot);
    sim_enter_sut(); sim_disarm();
    if(kind < P_COUNT) slots[slot]->fill(kind);
    else { slots[slot]->refiners_(); for(int k : chain_order) if(kind != 101 or k == P_CD or k == P_TX) slots[slot]->fill(k); }
    sim_leave_sut();
}

void sut_call(int kind, bool fresh, int slot, const char *text, size_t len, const RefTime *ref, CallOut *out) {
    out->status = ST_OK; out->date_status = ST_OK; out->count = 0; out->ref_changed = 0; out->ref_ok = 1;
    out->what[0] = 0; out->text_len = -1;
    if(!fresh) sut_make_slot(slot);
    posix_time::ptime t;
    try {
        if(ref)
            t = posix_time::ptime(gregorian::date(ref->y, ref->mo, ref->d),
                                  posix_time::time_duration(ref->h, ref->mi, ref->s));
        else
            t = posix_time::second_clock::local_time();
    } catch(std::exception &) {
        out->ref_ok = 0;
        return;
    }
    {
        auto d = t.date(); auto td = t.time_of_day();
        out->ref = RefTime{(int)d.year(), (int)d.month(), (int)d.day(), (int)td.hours(), (int)td.minutes(), (int)td.seconds()};
    }
    posix_time::ptime before = t;
    std::string str(text, len);
    // results live in raw storage, so that an exception leaves them destroyed as a caller would see it
    alignas(Result) unsigned char raw[sizeof(Result)];
    Result *results = nullptr;
    sim_enter_sut();
    try {
        Result tmp;
        if(fresh) {
            Objects o;
            run(kind, o, str, t, tmp);
        } else
            run(kind, *slots[slot], str, t, tmp);
        results = new(raw) Result(std::move(tmp));
    }
    catch(std::bad_alloc &e) { out->status = ST_NOMEM; }
    catch(std::exception &e) { out->status = ST_EXC; setwhat(out, e.what()); }
    catch(...) { out->status = ST_UNKNOWN_EXC; }
    if(results) {
        out->count = (int)results->size();
        for(int i = 0; i < out->count and i < MAXRES; i++) {
            OneResult &q = out->r[i];
            q.date[0] = 0;
            try {
                std::string s = (*results)[i].toDate();
                size_t n = s.size() < DATELEN - 1 ? s.size() : DATELEN - 1;
                std::memcpy(q.date, s.data(), n);
                q.date[n] = 0;
            }
            catch(std::bad_alloc &e) { std::strcpy(q.date, "!bad_alloc"); if(!out->date_status) out->date_status = ST_NOMEM; }
            catch(std::exception &e) { std::strcpy(q.date, "!exception"); out->date_status = ST_EXC; setwhat(out, e.what()); }
            catch(...) { std::strcpy(q.date, "!unknown"); out->date_status = ST_UNKNOWN_EXC; }
        }
    }
    sim_disarm();
    if(results) {
        for(int i = 0; i < out->count and i < MAXRES; i++) {
            OneResult &q = out->r[i];
            parse::ParsedResult &pr = (*results)[i];
            q.index = (int)pr.getIndex();
            q.len = (int64_t)pr.textLength();
            q.has_end = pr.end();
            q.certain = 0;
            comps(pr.startDate, q.start, q.certain, 0);
            if(q.has_end) comps(pr.endDate, q.end, q.certain, 8);
            else std::memset(q.end, 0, sizeof q.end);
            q.tags = 0;
            for(auto &m : utils::ModList)
                if(pr.getTag(m)) q.tags |= 1u << (int)m;
        }
        results->~Result();
    }
    out->ref_changed = !(t == before);
    out->text_len = (int)str.size();
    size_t n = str.size() < sizeof out->text ? str.size() : sizeof out->text;
    std::memcpy(out->text, str.data(), n);
    { std::string().swap(str); }
    sim_leave_sut();
}
