// The types of one part of the checks that follow traversals (PART 0..3).
#pragma once
template <class... T> struct TL {};
using std::string; using std::vector; using std::list; using std::deque; using std::map; using std::set; using std::pair; using std::tuple; using std::optional; using std::variant; using std::array; template <class T> using up = std::unique_ptr<T>;
#if PART == 0
using Types = TL<Node, Ext, Spl, Box<Node>, Arr, vector<Atom>, vector<Node>, vector<Ext>, vector<Spl>, vector<vector<Node>>, list<Node>, list<Atom>, deque<Ext>, std::queue<Node>, std::queue<Atom>, array<Node, 3>, array<Atom, 4>, vector<bool>, Box<vector<bool>>>;
#elif PART == 1
using Types = TL<map<int, Node>, map<Node, Ext>, map<Atom, Atom>, std::multimap<Atom, Node>, std::unordered_map<int, Node>, std::unordered_map<Atom, vector<Ext>, Hash>, set<Node>, set<Atom>, std::multiset<Ext>, std::unordered_set<Node, Hash>, map<string, vector<Node>>, map<int, map<int, list<Ext>>>, vector<map<int, Node>>>;
#elif PART == 2
using Types = TL<pair<Node, Atom>, tuple<Node, int, Ext>, tuple<Atom, Atom>, optional<Node>, optional<Atom>, variant<int, Node, Ext>, variant<vector<Node>, Atom>, up<Node>, up<Atom>, up<up<Ext>>, optional<vector<Ext>>, vector<optional<Node>>, vector<variant<Atom, Node>>, tuple<up<Node>, vector<tuple<Ext, Node>>>, Box<Box<Box<Node>>>, list<pair<int, Box<Ext>>>>;
#else
using Types = TL<up<Root>, up<Mac>, vector<up<Root>>, list<up<Mac>>, map<int, up<Root>>, tuple<up<Root>, Node, up<Mac>>, optional<up<Root>>, variant<int, up<Root>>, Box<up<Root>>, vector<Mid>, v16::Leaf, up<Box<vector<up<Root>>>>, Raw, vector<up<Raw>>, deque<up<Mac>>, array<up<Root>, 3>>;
#endif
