// Log messages
// @src src/common/logger.cpp src/common/settings.cpp
// @bounds every level setting and severity, every combination of colour and exit options, every 32- and 64-bit integer, every char, every string of up to four characters, doubles and floats up to 1e200 in magnitude, message lengths from 0 to past the end of the buffer with every kind of last argument; elapsed times from a list
// @outside elapsed times of 100 hours and more; the streams the text is sent to
#include "vrt.hpp"
#include <cstdio>
#include <um2/common/logger.hpp>
#include <um2/stdlib/string.hpp>
namespace lg = um2::logger;
static void options(Int level, bool colour, bool exits)
{
  um2::settings::logger::level = level;
  um2::settings::logger::timestamped = false;
  um2::settings::logger::colorized = colour;
  um2::settings::logger::exit_on_error = exits;
  lg::buffer[0] = 0;
}
static char const * const words[5] = {"", "ERROR - ", "WARN - ", "INFO - ", "DEBUG - "};
static char const * const colours[5] = {"", "\033[1;31m", "\033[1;33m", "", "\033[1;35m"};
static Int length(char const * s)
{
  Int n = 0;
  while (s[n] != 0) {
    ++n;
  }
  return n;
}
// The text at that place of the buffer; the place behind it
static Int expect(Int at, char const * s, char const * label)
{
  for (Int i = 0; s[i] != 0; ++i) {
    vx_assert(lg::buffer[at + i] == s[i], label);
  }
  return at + length(s);
}
template <class... T>
static void send(Int kind, T const &... x)
{
  if (kind == 1) {
    lg::error(x...);
  } else if (kind == 2) {
    lg::warn(x...);
  } else if (kind == 3) {
    lg::info(x...);
  } else {
    lg::debug(x...);
  }
}
// @entry h_levels time=60
extern "C" void h_levels()
{
  Int const level = vx_int("level", -1, 6);
  Int const kind = 1 + vx_choice("kind", 4);
  bool const colour = vx_choice("colour", 2) == 1;
  bool const exits = vx_choice("exits", 2) == 1;
  options(level, colour, exits);
  bool const sent = kind <= level;
  bool const ends = sent && kind == 1 && exits;
  vx_allow_exit(ends);
  send(kind, "a message", " of ", "parts");
  if (ends) {
    vx_never("an error ends the program");
  }
  vx_allow_exit(false);
  if (!sent) {
    vx_assert(lg::buffer[0] == 0, "not enabled");
    return;
  }
  Int at = 0;
  if (colour) {
    at = expect(at, colours[kind], "colour");
  }
  at = expect(at, words[kind], "severity");
  at = expect(at, "a message of parts", "text");
  if (colour) {
    at = expect(at, "\033[0m", "colour ends");
  }
  vx_assert(lg::buffer[at] == 0, "text ends");
  vx_assert(lg::getLastMessage().size() == at, "last message");
}
// The C library's text for the number stands at that place, followed by the end marker
template <class T>
static void number(char const * format, T v)
{
  Int at = length("INFO - ") + 1;
  lg::info("x", v, '|');
  char text[256];
  snprintf(text, sizeof(text), format, v);
  at = expect(at, text, "digits");
  vx_assert(lg::buffer[at] == '|' && lg::buffer[at + 1] == 0, "text behind the number");
}
// @entry h_numbers time=120
extern "C" void h_numbers()
{
  options(4, false, false);
  Int const kind = vx_choice("kind", 5);
  if (kind == 0) {
    number("%d", vx_int("i", -2147483647 - 1, 2147483647));
  } else if (kind == 1) {
    number("%u", vx_u32("u", 0, 4294967295U));
  } else if (kind == 2) {
    number("%ld", static_cast<long>(vx_i64("l", INT64_MIN, INT64_MAX)));
  } else if (kind == 3) {
    number("%lu", static_cast<unsigned long>(vx_u64("m", 0, 9223372036854775807UL)));
  } else {
    number("%d", static_cast<signed char>(vx_int("c", -128, 127)));
  }
}
// @entry h_text time=120
extern "C" void h_text()
{
  options(4, false, false);
  char s[5];
  Int const n = vx_choice("n", 5);
  for (Int i = 0; i < n; ++i) {
    s[i] = static_cast<char>(vx_int("c", 1, 255));
  }
  s[n] = 0;
  Int const kind = vx_choice("kind", 6);
  Int const at = length("INFO - ") + 1;
  bool const b = vx_choice("b", 2) == 1;
  char const * const p = s;
  Int k = n;
  if (kind == 0) {
    lg::info('<', p, ">");
  } else if (kind == 1) {
    vx_assume(n > 0);
    lg::info('<', um2::StringView(p), ">");
  } else if (kind == 2) {
    lg::info('<', um2::String(p), ">");
  } else if (kind == 3) {
    vx_assume(n == 1);
    lg::info('<', s[0], ">");
  } else if (kind == 4) {
    vx_assume(n == 0);
    lg::info('<', b, ">");
    expect(at, b ? "true" : "false", "truth value");
    k = b ? 4 : 5;
  } else {
    lg::info('<', s, ">");
  }
  vx_assert(lg::buffer[at - 1] == '<', "text in front");
  if (kind != 4) {
    for (Int i = 0; i < n; ++i) {
      vx_assert(lg::buffer[at + i] == s[i], "characters");
    }
  }
  vx_assert(lg::buffer[at + k] == '>' && lg::buffer[at + k + 1] == 0, "text behind");
}
// @entry h_reals mode=fp time=120
extern "C" void h_reals()
{
  options(4, false, false);
  double const v = vx_fp("v");
  vx_assume(v == v && v <= 1e200 && v >= -1e200 && v != 0);
  if (vx_choice("single", 2) == 1) {
    float const f = static_cast<float>(v);
    number("%f", f);
  } else {
    number("%f", v);
  }
}
// Messages up to and past the end of the buffer
// @entry h_length time=120
extern "C" void h_length()
{
  bool const colour = vx_choice("colour", 2) == 1;
  options(4, colour, false);
  static char text[320];
  Int const n = vx_choice("n", 80) + (vx_choice("short", 2) == 1 ? 0 : 190);
  for (Int i = 0; i < n; ++i) {
    text[i] = static_cast<char>('a' + i % 26);
  }
  text[n] = 0;
  char const * const p = text;
  Int const last = vx_choice("last", 5);
  char const * const tails[5] = {"", "z", "true", "false", "12345"};
  Int const kind = 2 + (colour ? 0 : 1);
  Int const total = length(words[kind]) + n + length(tails[last]) + (colour ? 7 + 4 : 0);
  vx_allow_exit(total >= 256);
  if (last == 0) {
    send(kind, p);
  } else if (last == 1) {
    send(kind, p, 'z');
  } else if (last == 2) {
    send(kind, p, true);
  } else if (last == 3) {
    send(kind, p, false);
  } else {
    send(kind, p, 12345);
  }
  if (total >= 256) {
    vx_never("an overlong message ends the program");
  }
  Int at = expect(0, colour ? colours[kind] : "", "colour");
  at = expect(at, words[kind], "severity");
  at = expect(at, p, "long text");
  at = expect(at, tails[last], "last argument");
  at = expect(at, colour ? "\033[0m" : "", "colour ends");
  vx_assert(at == total && lg::buffer[at] == 0, "text ends inside the buffer");
}
// Time since the start in front of the message
// @entry h_time time=60
extern "C" void h_time()
{
  options(4, false, false);
  um2::settings::logger::timestamped = true;
  Int const hours[3] = {0, 9, 23};
  Int const sixty[4] = {0, 9, 10, 59};
  Int const h = hours[vx_choice("h", 3)];
  Int const m = sixty[vx_choice("m", 4)];
  Int const s = sixty[vx_choice("s", 4)];
  lg::start_time = lg::Clock::now() - std::chrono::seconds(h * 3600 + m * 60 + s) - std::chrono::milliseconds(105);
  lg::info("text");
  Int const t[3] = {h, m, s};
  vx_assert(lg::buffer[0] == '[', "bracket");
  for (Int k = 0; k < 3; ++k) {
    vx_assert(lg::buffer[1 + 3 * k] == '0' + t[k] / 10 && lg::buffer[2 + 3 * k] == '0' + t[k] % 10, "two digits");
    vx_assert(lg::buffer[3 + 3 * k] == (k == 2 ? '.' : ':'), "separators");
  }
  // between 105 and 199 thousandths, however slow the run
  vx_assert(lg::buffer[10] >= '1' && lg::buffer[10] <= '9', "tenths of a second");
  vx_assert(lg::buffer[13] == ']' && lg::buffer[14] == ' ', "bracket");
  Int const at = expect(15, "INFO - text", "text behind the time");
  vx_assert(lg::buffer[at] == 0, "text ends");
}
// @entry h_reset time=60
extern "C" void h_reset()
{
  options(vx_int("level", 0, 4), vx_choice("colour", 2) == 1, vx_choice("exits", 2) == 1);
  lg::reset();
  vx_assert(lg::level == lg::levels::info && lg::timestamped && lg::colorized && lg::exit_on_error, "defaults");
}
