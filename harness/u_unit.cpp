// One source file of a program of several: the library's headers in an order of its own, then jobs that use all of them.
// UNIT: number of the source file; ORDER: which order. The list is that of the library's public headers.
#if ORDER == 1
#include "u_order1.inc"
#elif ORDER == 2
#include "u_order2.inc"
#elif ORDER == 3
#include "u_order3.inc"
#endif
#include "jobs.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define EXPORT(n) extern "C" __attribute__((visibility("default"))) void CAT(n##_, UNIT)
// the text of a job's result; the objects are made and destroyed where they are used
EXPORT(job)(int kind, std::uint64_t seed, const fg::file* f, const char* in, const char* out, std::string* result) {
    try { Rng r(seed); *result = kind == 0 ? file_job(*f, in, out) : kind == 1 ? card_job(r) : coord_job(r); }
    catch (const std::exception& e) { *result = std::string("exception ") + e.what(); }
}
// the steps of one piece of work, which may be done by different source files of the same program
EXPORT(step)(int step, void** reader, const fg::file* f, const char* name, std::string* result) {
    try { switch (step) {
        case 0: *reader = new reader_t(io::fits::open(name)); break;
        case 1: { reader_t& a = *(reader_t*)*reader; std::size_t n = a.get_hdu_list().size(); for (std::size_t i = 0; i < n && i < f->hdus.size(); ++i) *result += boost::apply_visitor(look(f->hdus[i]), a[(int)i]); break; }
        case 2: if (*reader) { ((reader_t*)*reader)->write_to(name); *result += fg::slurp(name); } break;
        case 3: if (*reader) *result += std::to_string(((reader_t*)*reader)->get_control_block_info().total_hdus()); break;
        default: delete (reader_t*)*reader; *reader = 0; } }
    catch (const std::exception& e) { *result += std::string("exception ") + e.what(); if (step < 2) { delete (reader_t*)*reader; *reader = 0; } }
}
