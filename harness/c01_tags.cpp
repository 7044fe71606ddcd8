// C01: the configuration tag language (scripts/PsiTag.pm) and the makefiles written from it
// (scripts/NewMake.pm, scripts/Make.pm), run by perl and make in a scratch directory.
#include "mc.h"
#include <algorithm>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
typedef std::string S;
typedef std::vector<S> VS;
typedef std::map<S, S> Tags; // tag -> content

static S repo()
{
	const char* r = getenv("VERIF_REPO");
	return r ? r : "/repo";
}
static void put(const S& file, const S& text)
{
	std::ofstream f(file);
	f << text;
}
static S get(const S& file)
{
	std::ifstream f(file);
	return S((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static S hexed(const S& s)
{
	static const char* d = "0123456789abcdef";
	S o = "x";
	for (unsigned char c : s)
		o += d[c >> 4], o += d[c & 15];
	return o;
}
static S unhexed(const S& s)
{
	S o;
	for (size_t i = 1; i + 1 < s.size(); i += 2)
		o += (char)std::stoi(s.substr(i, 2), nullptr, 16);
	return o;
}
static int sh(const S& cmd)
{
	int r = system(cmd.c_str());
	return WIFEXITED(r) ? WEXITSTATUS(r) : 255;
}
// content compared line by line; blank lines, and blanks at the ends of a line, do not count
static S plain(const S& t)
{
	std::istringstream in(t);
	S l, out;
	while (std::getline(in, l)) {
		l.erase(0, l.find_first_not_of(" \t") == S::npos ? l.size() : l.find_first_not_of(" \t"));
		while (!l.empty() && (l.back() == ' ' || l.back() == '\t'))
			l.pop_back();
		if (!l.empty())
			out += l + "\n";
	}
	return out;
}

// ---- the language, as documented
struct Stmt {
	S text; // what the file says
	char op; // = add or overwrite, + append, ? add if absent, ! add or fail, - delete, / delete or fail, r remove, n nothing, e error
	S tag, content;
	S shown;
};
static const char* modeOf(char op)
{
	switch (op) {
	case '=': return "=";
	case '+': return "+=";
	case '?': return "=?";
	case '!': return "=!";
	case '-': return "-=";
	case '/': return "-=!";
	}
	return "";
}
static S replaceAll(S s, const S& what, const S& by)
{
	for (size_t p = 0; (p = s.find(what, p)) != S::npos; p += by.size())
		s.replace(p, what.size(), by);
	return s;
}
static bool perform(Tags& t, const Stmt& s)
{
	const bool b = t.count(s.tag);
	switch (s.op) {
	case 'n':
		return true;
	case 'e':
		return false;
	case 'r':
		t.erase(s.tag);
		return true;
	case '=':
		t[s.tag] = s.content;
		return true;
	case '+':
		t[s.tag] += s.content;
		return true;
	case '?':
		if (!b)
			t[s.tag] = s.content;
		return true;
	case '!':
		if (b)
			return false;
		t[s.tag] = s.content;
		return true;
	default:
		if (!b || t[s.tag].find(s.content) == S::npos)
			return s.op == '-';
		t[s.tag] = replaceAll(t[s.tag], s.content, "");
		return true;
	}
}
static S trim(const S& s)
{
	size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
	return a == S::npos ? "" : s.substr(a, b - a + 1);
}
static S canonical(const S& s)
{
	S o;
	for (char c : trim(s))
		if (!((c == ' ' || c == '\t') && !o.empty() && o.back() == ' '))
			o += c == '\t' ? ' ' : c;
	return o;
}
// false: the text refers to what is not there, or to itself
static bool expand(const Tags& t, const S& text, std::set<S> parents, S& out)
{
	std::istringstream in(text);
	S l;
	while (std::getline(in, l)) {
		S q = trim(l);
		if (!q.empty() && q[0] == '<') {
			const S tag = canonical(q.substr(1));
			if (tag.empty() || !t.count(tag) || parents.count(tag))
				return false;
			std::set<S> p(parents);
			p.insert(tag);
			if (!expand(t, t.at(tag), p, out))
				return false;
			continue;
		}
		if (!q.empty() && q[0] == '\\')
			q.erase(0, 1);
		if (!q.empty() && q.back() == '\\')
			q.pop_back();
		out += q + "\n";
	}
	return true;
}

// ---- the real program, many cases per process
static const char* driver = R"PERL(
use strict; use warnings;
my ($repo, $in, $out) = @ARGV;
unshift @INC, "$repo/scripts";
require PsiTag; require NewMake;
open(my $sink, ">", "/dev/null"); open(STDERR, ">&", $sink); 
open(my $fi, "<", $in) or die; open(my $fo, ">", $out) or die;
my $save = *STDOUT;
sub hx { my ($s) = @_; return "x".unpack("H*", $s); }
sub un { my ($s) = @_; return pack("H*", substr($s, 1)); }
my $k = 0;
while (<$fi>) {
	chomp;
	my @w = split(/ /);
	my $what = shift @w;
	my $nf = shift @w;
	my @files;
	for my $i (1..$nf) {
		my $name = "f$i.psiTag";
		my $text = shift @w;
		push @files, $name;
		if ($text eq "-") { unlink($name); next; }
		open(my $f, ">", $name) or die; print $f un($text); close($f);
	}
	my $res = "";
	local $SIG{ALRM} = sub { exit(9); };
	alarm(20);
	if ($what eq "T") {
		my %tags;
		my $ok = eval { PsiTag::main(\%tags, $_) for (@files); 1; };
		if (!$ok) { $res = "E"; }
		else {
			$res = "T";
			for my $t (sort keys %tags) {
				my $u;
				my $ok2 = eval { $u = PsiTag::unWrap(\%tags, "< $t\n"); 1; };
				$res .= " ".hx($t)." ".hx($tags{$t}->{"content"})." ".($ok2 ? hx($u) : "E");
			}
		}
	} else {
		my $flavor = un(shift @w);
		my $c;
		my $ok = eval { $c = NewMake::getConfigContent(\@files, $flavor eq "" ? NewMake::noFlavor() : $flavor); 1; };
		$res = $ok ? "C ".hx($c) : "E";
	}
	alarm(0);
	print $fo $res, "\n";
}
close($fo);
)PERL";
static VS ask(const VS& cases)
{
	if (access("driver.pl", R_OK))
		put("driver.pl", driver);
	S all;
	for (auto& c : cases)
		all += c + "\n";
	put("cases", all);
	remove("answers");
	const int r = sh("ulimit -v 4000000; perl driver.pl '" + repo() + "' cases answers >/dev/null 2>&1 </dev/null");
	VS out;
	std::istringstream in(get("answers"));
	S l;
	while (std::getline(in, l))
		out.push_back(l);
	if (out.size() < cases.size())
		out.push_back("perl ended with " + std::to_string(r));
	out.resize(cases.size(), "not run");
	return out;
}
struct Case {
	std::vector<std::vector<Stmt>> files;
	std::vector<bool> cut; // no newline at the end of the file
};
static S textOf(const Case& c, size_t k)
{
	S t;
	for (auto& s : c.files[k])
		t += s.text + "\n";
	if (k < c.cut.size() && c.cut[k] && !t.empty())
		t.pop_back();
	return t;
}
static void judge(const std::vector<Case>& cases)
{
	VS in;
	for (auto& c : cases) {
		S l = "T " + std::to_string(c.files.size());
		for (size_t k = 0; k < c.files.size(); ++k)
			l += " " + hexed(textOf(c, k));
		in.push_back(l);
	}
	mc::tick();
	const VS got = ask(in);
	mc::tick();
	for (size_t i = 0; i < cases.size(); ++i) {
		Tags t;
		bool good = true;
		for (auto& f : cases[i].files)
			for (auto& s : f)
				good = good && perform(t, s);
		S want = good ? "defined" : "refused", real, said;
		for (size_t k = 0; k < cases[i].files.size(); ++k)
			said += "--- file\n" + textOf(cases[i], k);
		if (good)
			for (auto& e : t) {
				S u;
				want += "\n[" + e.first + "] " + plain(e.second) + "-> ";
				want += expand(t, "< " + e.first, {}, u) ? plain(u) : S("refused");
			}
		std::istringstream w(got[i]);
		S x, a, b;
		w >> x;
		if (x == "E")
			real = "refused";
		else if (x == "T") {
			real = "defined";
			while (w >> x >> a >> b)
				real += "\n[" + unhexed(x) + "] " + plain(unhexed(a)) + "-> " + (b == "E" ? S("refused") : plain(unhexed(b)));
		} else
			real = got[i];
		mc::count(1);
		mc::fold(want);
		if (real != want)
			mc::fail("got\n" + real + "\nexpected\n" + want + "\nfor\n" + said);
	}
}

static void histories(const S& what, const std::vector<Stmt>& al);
static void statements()
{
	std::vector<Stmt> al;
	auto line = [&](const S& tag, char op, const S& c) { al.push_back({ tag + " " + modeOf(op) + " " + c, op, tag, c + "\n", "" }); };
	for (char op : { '=', '+', '?', '!', '-', '/' })
		line("a", op, "x");
	for (char op : { '=', '+', '-', '/' })
		line("a", op, "y z");
	line("b", '=', "w");
	line("b", '+', "< a");
	line("b", '?', "< a");
	line("a", '+', "< b");
	al.push_back({ "a = ()", 'r', "a", "", "" });
	al.push_back({ "b =()", 'r', "b", "", "" });
	al.push_back({ "a = (\nx\n\ty z\n)", '=', "a", "x\ny z\n\n", "" });
	al.push_back({ "a += (\n# v\nx)", '+', "a", "# v\nx\n", "" });
	al.push_back({ "b -= (\nx\ny z)", '-', "b", "x\ny z\n", "" });
	al.push_back({ "b = (\nx\n< a\ny z)", '=', "b", "x\n< a\ny z\n", "" });
	al.push_back({ "a =? (\nw\n)", '?', "a", "w\n\n", "" });
	al.push_back({ "# a = x", 'n', "", "", "" });
	al.push_back({ " \t", 'n', "", "", "" });
	al.push_back({ "nothing", 'e', "", "", "" });
	al.push_back({ "a =+ x", 'e', "", "", "" });
	al.push_back({ "a = x)", 'e', "", "", "" });
	histories("statements ", al);
	// contents that are parts of others
	std::vector<Stmt> ol;
	auto part = [&](char op, const S& c) { ol.push_back({ S("a ") + modeOf(op) + " " + c, op, "a", c + "\n", "" }); };
	for (const S& c : VS { "x", "yx", "xy", "xx" })
		part('+', c);
	for (const S& c : VS { "x", "yx", "xx" })
		part('-', c);
	part('/', "x");
	part('/', "yx");
	ol.push_back({ "a = (\nyx\nx\nxx)", '=', "a", "yx\nx\nxx\n", "" });
	ol.push_back({ "a -= (\nx\nx)", '-', "a", "x\nx\n", "" });
	ol.push_back({ "a -= (\nx\nxx)", '-', "a", "x\nxx\n", "" });
	histories("overlapping contents ", ol);
}
static void histories(const S& what, const std::vector<Stmt>& al)
{
	const int n = al.size(), depth = mc::thorough() ? 4 : 3;
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < n; ++j)
			mc::run(what + std::to_string(i) + "," + std::to_string(j) + " up to " + std::to_string(depth), [&] {
				std::vector<Case> cs;
				std::function<void(std::vector<Stmt>)> go = [&](std::vector<Stmt> s) {
					cs.push_back({ { s }, {} });
					if ((int)s.size() < depth)
						for (auto& x : al) {
							auto q = s;
							q.push_back(x);
							go(q);
						}
					if (cs.size() > 4000) {
						judge(cs);
						cs.clear();
					}
				};
				if (j == 0)
					cs.push_back({ { { al[i] } }, { true } });
				go({ al[i], al[j] });
				// the same over two files, the first without a newline at its end
				cs.push_back({ { { al[i] }, { al[j] } }, { true, true } });
				for (auto& x : al) {
					cs.push_back({ { { al[i], al[j] }, { x } }, { true, false } });
					cs.push_back({ { { al[i] }, { al[j], x } }, { false, true } });
				}
				judge(cs);
			});
}
// every way to write a definition
static void spellings()
{
	const VS tags { "a", "a b", "flavor prod_1", ".", "c/d", "x:y", "[t]", "A B C", "t.u", "a'b", "2x", "$t", "{q}", "%" };
	const VS contents { "x", "x y", "CXX = g++ -O3 -I../a", "CPPFLAGS += -D_X=1 # why", "\\<x", "\\(x", "x)\\", "(x)\\", "\\\\x", "x\\\\", "x \\", "\\", "\\\\", "\\x\\", "a=b", "=b", "-b", "# x", "< a b", "<a", "$(X) \"q\"", "x ( y", "0", "()x", "{", "x)y", "@all", "a.*b", "[z", "%t \"$v\"", "ends\\ no" };
	auto valid = [](const S& c, bool block) { // does the line end the block or start one?
		return (c.back() != ')') && (block || (c[0] != '(' || c.size() < 2));
	};
	for (auto& tag : tags)
		for (auto& c : contents)
			mc::run("spelling of " + tag + " as " + c, [&] {
				std::vector<Case> cs;
				std::vector<std::vector<Stmt>> before { {}, { { "a b = first", '=', "a b", "first\n", "" } } };
				for (S pre : { "", " ", "\t" })
					for (S mid : { "", " ", "  " })
						for (S post : { " ", "\t ", "" })
							for (char op : { '=', '+', '?', '!', '-' }) {
								if (op == '-' && plain(c) == "")
									continue;
								S name = tag;
								if (mid == "  ")
									name = replaceAll(tag, " ", "  ");
								const S head = pre + name + mid + modeOf(op);
								// a mode glued to the content would be another mode
								const bool glue = !post.empty() || S("=+?!-<&*").find(c[0]) == S::npos;
								for (auto b : before) {
									if (glue && valid(c, false)) {
										auto q = b;
										q.push_back({ head + post + c, op, tag, c + "\n", "" });
										cs.push_back({ { q }, {} });
									}
									if (!valid(c, true))
										continue;
									auto q = b;
									// blocks; the closing parenthesis on a line of its own or not; text on the opening line or not
									q.push_back({ head + post + "(" + mid + "\n" + pre + c + "\n" + pre + ")" + mid, op, tag, c + "\n\n", "" });
									cs.push_back({ { q }, {} });
									q = b;
									q.push_back({ head + post + "( \nsome\n" + pre + c + "\nmore)", op, tag, "some\n" + c + "\nmore\n", "" });
									cs.push_back({ { q }, {} });
									q = b;
									q.push_back({ head + post + "(" + post + c + "\nmore\n)", op, tag, c + "\nmore\n\n", "" });
									if (c[0] != '(')
										cs.push_back({ { q }, {} });
								}
							}
				judge(cs);
			});
	mc::run("blocks not closed, closed twice, modes unknown", [&] {
		std::vector<Case> cs;
		for (S t : { "a = (", "a = (\nx", "a += (\nx\n# )\ny\nb = c", "a = x\nb = (\n\n", "a = x)", ")", "a", "a b c", "a ! x", "a ? x", "a & x", "a =* x", "a =< b", "a == x", "a ++ x", "a =-! x", "a -=? x", "a !(x)" })
			for (S more : { "", "\nz = 1" })
				cs.push_back({ { { { "q = 1", '=', "q", "1\n", "" }, { t + more, 'e', "", "", "" } } }, {} });
		judge(cs);
	});
}
// which tags include which: all graphs over three tags
static void inclusions()
{
	const VS lines { "x", "\\\\y\\\\", "< a", "<b", " <  c", "< d", "\\< a" };
	const int n = lines.size();
	VS texts { "" };
	for (int i = 0; i < n; ++i) {
		texts.push_back(lines[i] + "\n");
		for (int j = 0; j < n; ++j)
			texts.push_back(lines[i] + "\n" + lines[j] + "\n");
	}
	for (size_t i = 0; i < texts.size(); ++i)
		for (size_t j = 0; j < texts.size(); j += mc::thorough() ? 1 : (i % 2 ? 3 : 2))
			mc::run("inclusions " + std::to_string(i) + "," + std::to_string(j), [&] {
				std::vector<Case> cs;
				for (auto& t : texts) {
					std::vector<Stmt> f;
					const S* c[] = { &texts[i], &texts[j], &t };
					for (int k = 0; k < 3; ++k) {
						const S tag(1, 'a' + k);
						f.push_back({ tag + " = (\n" + *c[k] + ")", '=', tag, *c[k] + "\n", "" });
					}
					cs.push_back({ { f }, {} });
				}
				judge(cs);
			});
	// long chains and many uses of one tag
	mc::run("chains", [&] {
		std::vector<Case> cs;
		for (int len : { 2, 5, 10, 40 })
			for (int close = 0; close < 3; ++close) {
				std::vector<Stmt> f;
				for (int k = 0; k < len; ++k) {
					const S tag = "t" + std::to_string(k);
					S c = "v" + tag + " \\\\\n< t" + std::to_string(k + 1) + "\n\\\\end\n";
					if (k == len - 1)
						c = close == 0 ? "x \\\\\n" : close == 1 ? "< t0\n" : "\n";
					f.push_back({ tag + " = (\n" + c + ")", '=', tag, c + "\n", "" });
				}
				S many;
				for (int k = 0; k < len; ++k)
					many += "< t" + std::to_string(len - 1) + "\n";
				f.push_back({ "many = (\n" + many + ")", '=', "many", many + "\n", "" });
				cs.push_back({ { f }, {} });
			}
		judge(cs);
	});
}
// the configuration of a flavor, from the base file and the user's own
static void flavors()
{
	const VS flavor { "", "production", "debug", "own", "none", "a  b" };
	const std::vector<VS> user { {}, { "flavor own = (\n< flavor production\nMINE = 1\n)" }, { "compiler += MORE = 2" }, { "compiler = ONLY = 3" }, { "default flavor = debug" }, { "default flavor = ()" }, { "flavor debug = ()" }, { "flavor production =? LATE = 4" }, { "flavor production =! LATE = 4" }, { "compiler -= CXX = g++" }, { "compiler -=! CXX = icc" }, { "default flavor =  a   b", "flavor a b = SPACED = 5" }, { "broken" }, { "compiler = < flavor production" } };
	for (size_t u = 0; u < user.size(); ++u)
		for (size_t v = 0; v < user.size(); ++v)
			mc::run("flavors with user files " + std::to_string(u) + "," + std::to_string(v), [&] {
				S base = "# base\ncompiler = CXX = g++\ngroup basics = (\n< compiler\nSTRIP_COMMAND = strip\nCONT = a \\\\\n  b\n)\nflavor production = (\n< group basics\nCPPFLAGS += -O3 # fast\n)\nflavor debug = (\n< group basics\nCPPFLAGS += -g3\n)\ndefault flavor = production\n";
				const Tags t0 { { "compiler", "CXX = g++\n" }, { "group basics", "< compiler\nSTRIP_COMMAND = strip\nCONT = a \\\\\nb\n" }, { "flavor production", "< group basics\nCPPFLAGS += -O3 # fast\n" }, { "flavor debug", "< group basics\nCPPFLAGS += -g3\n" }, { "default flavor", "production\n" } };
				VS in, want;
				for (auto& f : flavor) {
					Tags t(t0);
					bool good = true;
					S l = "C 3 " + hexed(base);
					for (size_t w : { u, v }) {
						S text;
						for (auto& s : user[w]) {
							text += s + "\n";
							if (s == "broken")
								good = false;
							else if (s.find("= ()") != S::npos)
								t.erase(canonical(s.substr(0, s.find('='))));
							else {
								size_t p = s.find_first_of("=+-?!");
								size_t e = s.find(' ', p);
								Stmt x { s, '=', canonical(s.substr(0, p)), plain(s.substr(e)), "" };
								const S m = s.substr(p, e - p);
								for (char op : { '=', '+', '?', '!', '-', '/' })
									if (m == modeOf(op))
										x.op = op;
								if (w == 1)
									x.content = "< flavor production\nMINE = 1\n";
								good = good && perform(t, x);
							}
						}
						l += " " + hexed(text);
					}
					in.push_back(l + " " + hexed(f));
					S name = canonical(f.empty() ? plain(t.count("default flavor") ? t["default flavor"] : S()) : f), out;
					name.erase(std::remove(name.begin(), name.end(), '\n'), name.end());
					if (!f.empty())
						name = f; // taken as it is
					good = good && t.count("flavor " + name) && expand(t, t["flavor " + name], {}, out);
					if (good && !expand(t, "< flavor " + name, {}, out = "")) // contains itself
						good = false;
					want.push_back(good ? plain(out) : S("refused"));
				}
				mc::tick();
				const VS got = ask(in);
				for (size_t i = 0; i < in.size(); ++i) {
					const S real = got[i] == "E" ? S("refused") : got[i].substr(0, 2) == "C " ? plain(unhexed(got[i].substr(2))) : got[i];
					mc::count(1);
					mc::fold(want[i]);
					if (real != want[i])
						mc::fail("flavor '" + flavor[i] + "': got\n" + real + "\nexpected\n" + want[i]);
				}
			});
	mc::run("a configuration file that is missing", [&] {
		for (S l : VS { "T 1 -", "T 2 " + hexed("a = x\n") + " -", "C 2 - " + hexed("a = x\n") + " " + hexed("production") })
			mc::eq(ask({ l })[0], S("E"), "missing file");
	});
	mc::run("psiTag.pl", [&] {
		put("in.psiTag", "a b = (\nx\n< c\n)\nc = z\n");
		const S at = S("cd '") + repo() + "/scripts' && perl psiTag.pl '" + [] { char b[4096]; return S(getcwd(b, sizeof b)); }() + "/in.psiTag' ";
		auto run = [&](const S& arg, int& rc) {
			char b[4096];
			const S here = getcwd(b, sizeof b);
			rc = sh("(" + at + arg + ") > '" + here + "/out' 2>/dev/null");
			return plain(get("out"));
		};
		int rc = 0;
		mc::eq(run("'a b'", rc), S("x\n< c\n"), "content of a tag");
		mc::eq(rc, 0, "exit code");
		mc::eq(run("c", rc), S("z\n"), "content of a tag");
		mc::eq(run("", rc), S(""), "no tag asked for");
		mc::eq(rc, 0, "exit code");
		run("d", rc);
		mc::check(rc != 0, "a tag that is not there");
	});
}

// ---- makefiles: what make does with them, with a compiler that only records its work
static const char* makeDriver = R"PERL(
use strict; use warnings;
my ($repo, $which, $spec, $needs) = @ARGV;
unshift @INC, "$repo/scripts";
require PsiTag; require NewMake; require Make;
open(my $sink, ">", "/dev/null"); open(STDERR, ">&", $sink);
my @drivers;
for my $d (split(/;/, $spec)) {
	my ($name, @rest) = split(/,/, $d);
	if (!@rest) { push @drivers, $name; next; }
	my %h = ("name" => $name);
	for (@rest) { my ($k, $v) = split(/:/, $_, 2); $v =~ s/\+/ /g; $h{$k} = $v; }
	push @drivers, \%h;
}
open(my $fh, ">", "Makefile") or die;
my %args = ("code" => "test", "path" => "", "additional3" => "extra", "additional2" => "scratchfile");
if ($which eq "new") {
	%args = (%args, "configFiles" => ["Config.psiTag"], "flavor" => "work", "CPPFLAGS" => "-DMINE", "LDFLAGS" => "-lmine", "needsPsimagLiteLib" => $needs, "additional4" => "before");
	NewMake::main($fh, \%args, \@drivers);
} else {
	Make::newMake($fh, \@drivers, \%args);
}
close($fh);
)PERL";
static const char* compiler = R"SH(#!/bin/bash
echo "cxx $*" >> log
dep=0; comp=0; out=""; prev=""
for a in "$@"; do
	[ "$a" = "-MM" ] && dep=1
	[ "$a" = "-c" ] && comp=1
	[ "$prev" = "-o" ] && out="$a"
	prev="$a"
done
for a in "$@"; do
	case "$a" in *.cpp)
		[ $dep = 1 ] && echo "$(basename "$a" .cpp).o: $a"
		[ $comp = 1 ] && touch "$(basename "$a" .cpp).o";;
	esac
done
[ -n "$out" ] && touch "$out"
exit 0
)SH";
struct Drv {
	S spec, name;
	bool aux, oldMode;
	VS objs;
	S lib;
};
static void setTime(const S& f, long t)
{
	struct timespec ts[2] = { { t, 0 }, { t, 0 } };
	utimensat(AT_FDCWD, f.c_str(), ts, 0);
}
static void makefiles()
{
	const std::vector<Drv> all {
		{ "one", "one", false, true, { "one.o" }, "" },
		{ "two,aux:0", "two", false, false, { "two.o" }, "" },
		{ "three,dotos:three.o+part.o", "three", false, false, { "three.o", "part.o" }, "" },
		{ "part,aux:1", "part", true, false, { "part.o" }, "" },
		{ "four,libs:foo,dotos:four.o", "four", false, false, { "four.o" }, "foo" },
		{ "five,dotos:part.o+five.o+one.o,libs:foo", "five", false, false, { "part.o", "five.o", "one.o" }, "foo" },
	};
	for (S which : { "new", "old" })
		for (int needs = 0; needs < (which == "new" ? 2 : 1); ++needs)
			for (int set = 1; set < 64; ++set)
				for (int rev = 0; rev < 2; ++rev)
					mc::run("makefile " + which + (needs ? " with the library" : "") + ", drivers " + std::to_string(set) + (rev ? " reversed" : ""), [&] {
						std::vector<Drv> d;
						for (int k = 0; k < 6; ++k)
							if (set >> k & 1)
								d.push_back(all[k]);
						if (rev)
							std::reverse(d.begin(), d.end());
						std::set<S> names, objs;
						for (auto& x : d)
							names.insert(x.name);
						for (auto& x : d)
							for (auto& o : x.objs)
								objs.insert(o);
						for (auto& o : objs) // an object without a rule
							if (!names.count(o.substr(0, o.size() - 2)))
								return;
						sh("rm -rf tree");
						mkdir("tree", 0755), mkdir("tree/PsimagLite", 0755), mkdir("tree/PsimagLite/lib", 0755), mkdir("tree/app", 0755), mkdir("tree/app/src", 0755);
						put("tree/PsimagLite/lib/libpsimaglite.a", "");
						put("tree/app/src/gen.pl", makeDriver);
						put("tree/app/src/cxx", compiler);
						chmod("tree/app/src/cxx", 0755);
						put("tree/app/src/Config.psiTag", "flavor work = (\nCXX = ./cxx\nSTRIP_COMMAND = ./cxx strip\nLDFLAGS = -lbase\n)\n");
						put("tree/app/src/Config.make", "CXX = ./cxx\nSTRIP_COMMAND = ./cxx strip\nLDFLAGS = -lbase\n");
						put("tree/app/src/libfoo.a", "");
						put("tree/app/src/extra", "");
						put("tree/app/src/before", "");
						S spec;
						for (auto& x : d) {
							put("tree/app/src/" + x.name + ".cpp", "");
							spec += (spec.empty() ? "" : ";") + x.spec;
						}
						mc::eq(sh("cd tree/app/src && perl gen.pl '" + repo() + "' " + which + " '" + spec + "' " + std::to_string(needs)), 0, "writing the makefile");
						auto past = [&](long t) { // everything is as old as this
							for (S f : { "Makefile", "Config.make", "libfoo.a", "extra", "before", "Makefile.dep" })
								setTime("tree/app/src/" + f, t);
							setTime("tree/PsimagLite/lib/libpsimaglite.a", t);
							for (auto& x : d) {
								setTime("tree/app/src/" + x.name + ".cpp", t);
								setTime("tree/app/src/" + x.name + ".o", t + 1);
								setTime("tree/app/src/" + x.name, t + 2);
							}
						};
						auto build = [&](const S& target) {
							remove("tree/app/src/log");
							const int r = sh("cd tree/app/src && make -s " + target + " >/dev/null 2>&1 </dev/null");
							mc::eq(r, 0, "make " + target);
							mc::tick();
							return get("tree/app/src/log");
						};
						// what was compiled and linked, given the sources that changed
						auto expected = [&](const std::set<S>& changed, const S& log, const S& what) {
							std::set<S> compiled, linked, stripped, wantC, wantL;
							std::istringstream in(log);
							S l;
							while (std::getline(in, l)) {
								std::istringstream w(l);
								VS words;
								S x;
								while (w >> x)
									words.push_back(x);
								auto has = [&](const S& q) { return std::count(words.begin(), words.end(), q); };
								if (has("-MM")) {
									for (auto& y : d)
										mc::check(has(y.name + ".cpp") == 1, what + ": dependencies of " + y.name);
								} else if (has("-c")) {
									for (auto& y : d)
										if (has(y.name + ".cpp"))
											mc::check(compiled.insert(y.name).second, what + ": " + y.name + " is compiled twice");
									if (which == "new")
										mc::check(has("-DMINE") == 1, what + ": flags for the compiler: " + l);
								} else if (has("strip"))
									stripped.insert(words.back());
								else if (has("-o")) {
									const S exe = *(std::find(words.begin(), words.end(), "-o") + 1);
									mc::check(linked.insert(exe).second, what + ": " + exe + " is linked twice");
									bool found = false;
									for (auto& y : d)
										if (y.name == exe) {
											found = true;
											VS o;
											for (auto& q : words)
												if (q.size() > 2 && q.substr(q.size() - 2) == ".o")
													o.push_back(q);
											VS a(o), b(y.objs);
											std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
											mc::check(a == b, what + ": objects of " + exe + ": " + mc::str(o));
											mc::check(has("-lbase") == 1, what + ": libraries of the flavor: " + l);
											mc::check(has("-lfoo") == (y.lib == "foo" ? 1 : 0), what + ": library of the driver: " + l);
											mc::check(has("-lpsimaglite") == (needs && y.oldMode ? 1 : 0), what + ": PsimagLite's library: " + l);
											if (which == "new")
												mc::check(has("-lmine") == 1 && has("-DMINE") == 1, what + ": additional flags: " + l);
										}
									mc::check(found, what + ": links " + exe);
								} else
									mc::fail(what + ": unexpected command " + l);
							}
							for (auto& y : d)
								if (!y.aux)
									for (auto& o : y.objs) {
										const S src = o.substr(0, o.size() - 2);
										if (changed.count(src))
											wantC.insert(src), wantL.insert(y.name);
									}
							auto show = [](const std::set<S>& s) { S o; for (auto& x : s) o += x + " "; return o; };
							// objects that no program needs may be left alone
							std::set<S> c2;
							for (auto& x : compiled)
								c2.insert(x);
							mc::eq(show(c2), show(wantC), what + ": compiled");
							mc::eq(show(linked), show(wantL), what + ": linked");
							mc::eq(show(stripped), show(wantL), what + ": stripped");
							mc::count(1);
							mc::fold(show(wantL));
						};
						expected(names, build(""), "first make");
						past(1000000000);
						expected({}, build("all"), "nothing changed");
						for (auto& x : d) {
							past(1000000000);
							setTime("tree/app/src/" + x.name + ".cpp", 1000000100);
							expected({ x.name }, build(""), x.name + " changed");
						}
						past(1000000000);
						setTime("tree/app/src/Makefile", 1000000100);
						expected(names, build(""), "the makefile changed");
						put("tree/app/src/core.1", "");
						put("tree/app/src/scratchfile", "");
						build("clean");
						for (auto& x : d) {
							mc::check(access(("tree/app/src/" + x.name + ".o").c_str(), F_OK) != 0, "clean left an object");
							mc::check(access(("tree/app/src/" + x.name + ".cpp").c_str(), F_OK) == 0, "clean removed a source");
							if (!x.aux)
								mc::check(access(("tree/app/src/" + x.name).c_str(), F_OK) != 0, "clean left a program");
						}
						for (S f : { "core.1", "scratchfile", "Makefile.dep" })
							mc::check(access(("tree/app/src/" + f).c_str(), F_OK) != 0, "clean left " + f);
						for (S f : { "Makefile", "extra" })
							mc::check(access(("tree/app/src/" + f).c_str(), F_OK) == 0, "clean removed " + f);
						sh("rm -rf tree");
					});
}

void mc::explore()
{
	statements();
	spellings();
	inclusions();
	flavors();
	makefiles();
}
