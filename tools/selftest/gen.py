"""snippets: each is a Rust expression of type bool that is true"""
S = r'''
vec![1,2,3].iter().rev().copied().collect::<Vec<i32>>() == vec![3,2,1]
vec![1,2,3].iter().skip(1).copied().collect::<Vec<i32>>() == vec![2,3]
vec![1,2,3].iter().take(2).copied().collect::<Vec<i32>>() == vec![1,2]
vec![1,2,3,4].iter().step_by(2).copied().collect::<Vec<i32>>() == vec![1,3]
vec![1,2,3].iter().map(|x| x + 1).sum::<i32>() == 9
vec![1,2,3].iter().product::<i32>() == 6
vec![1,2,3].iter().fold(0, |a, b| a + b) == 6
vec![1,2,3].iter().copied().reduce(|a, b| a * b) == Some(6)
vec![1,2,3].iter().copied().max() == Some(3)
vec![1,2,3].iter().copied().min() == Some(1)
vec!["a","bbb"].iter().max_by_key(|x| x.len()) == Some(&"bbb")
vec!["a","bbb"].iter().min_by_key(|x| x.len()) == Some(&"a")
vec![1,2,3].iter().last() == Some(&3)
vec![1,2,3].iter().nth(1) == Some(&2)
vec![1,2,3].iter().count() == 3
vec![1,2,3].iter().position(|x| *x == 2) == Some(1)
vec![1,2,3].iter().rposition(|x| *x == 2) == Some(1)
vec![1,2,3].iter().all(|x| *x > 0)
vec![1,2,3].iter().any(|x| *x > 2)
vec![1,2,3].iter().find(|x| **x > 1) == Some(&2)
vec![1,2,3].iter().find_map(|x| if *x > 1 { Some(x * 2) } else { None }) == Some(4)
vec![1,2,3].iter().filter(|x| **x != 2).count() == 2
vec![1,2,3].iter().filter_map(|x| if *x > 1 { Some(*x) } else { None }).collect::<Vec<_>>() == vec![2,3]
vec![1,2,3].iter().skip_while(|x| **x < 2).count() == 2
vec![1,2,3].iter().take_while(|x| **x < 3).count() == 2
vec![1,2,3].iter().map_while(|x| if *x < 3 { Some(*x) } else { None }).collect::<Vec<_>>() == vec![1,2]
vec![1,2].iter().chain(vec![3].iter()).count() == 3
vec![1,2].iter().zip(vec!["a","b"].iter()).map(|(a, b)| format!("{a}{b}")).collect::<Vec<_>>() == vec!["1a","2b"]
vec![1,2].iter().enumerate().map(|(i, x)| i as i32 * x).sum::<i32>() == 2
vec![vec![1],vec![2,3]].into_iter().flatten().collect::<Vec<_>>() == vec![1,2,3]
vec![1,2].into_iter().flat_map(|x| vec![x, x]).collect::<Vec<_>>() == vec![1,1,2,2]
vec![1,2,3].into_iter().partition::<Vec<i32>, _>(|x| *x > 1) == (vec![2,3], vec![1])
vec![(1,"a"),(2,"b")].into_iter().unzip::<i32, &str, Vec<_>, Vec<_>>() == (vec![1,2], vec!["a","b"])
{ let mut it = vec![1,2].into_iter().peekable(); it.peek() == Some(&1) && it.next() == Some(1) }
{ let mut it = vec![1,2].into_iter().peekable(); let mut s = 0; while let Some(x) = it.next() { if it.peek().is_some() { s += x; } } s == 1 }
{ let mut it = vec![1,2,3].into_iter().peekable(); it.next_if(|x| *x == 1) == Some(1) }
{ let mut it = vec![1,2].into_iter(); it.next(); it.next() == Some(2) && it.next().is_none() }
{ let mut it = vec![1,2,3].into_iter(); it.next_back() == Some(3) }
{ let v = vec![1,2,3]; let mut it = v.iter(); let a: Vec<_> = it.by_ref().take(1).collect(); a.len() == 1 && it.count() == 2 }
vec![1,2,3].iter().cycle().take(5).count() == 5
vec![3,1,2].iter().scan(0, |s, x| { *s += x; Some(*s) }).collect::<Vec<_>>() == vec![3,4,6]
vec![1,2,3].iter().inspect(|_| ()).count() == 3
vec![1,2].iter().cloned().eq(vec![1,2].iter().cloned())
vec![1,2,3].iter().try_fold(0i32, |a, x| a.checked_add(*x)) == Some(6)
vec![1,2,3].iter().try_for_each(|x| if *x < 9 { Ok(()) } else { Err(()) }) == Ok(())
vec!["1","2"].iter().map(|x| x.parse::<i32>()).collect::<Result<Vec<_>, _>>() == Ok(vec![1,2])
vec!["1","x"].iter().map(|x| x.parse::<i32>().ok()).collect::<Option<Vec<_>>>() == None
vec!["a","b"].into_iter().collect::<String>() == "ab"
vec!['a','b'].iter().collect::<String>() == "ab"
(0..3).map(|x| x * 2).collect::<Vec<i32>>() == vec![0,2,4]
(0..=3).rev().collect::<Vec<i32>>() == vec![3,2,1,0]
(1..4).contains(&2)
std::iter::once(1).chain(std::iter::empty()).count() == 1
std::iter::repeat("x").take(3).collect::<String>() == "xxx"
std::iter::repeat_with(|| 1).take(2).count() == 2
std::iter::successors(Some(1), |x| if *x < 4 { Some(x * 2) } else { None }).collect::<Vec<i32>>() == vec![1,2,4]
{ let mut i = 0; std::iter::from_fn(|| { i += 1; if i < 3 { Some(i) } else { None } }).count() == 2 }
std::iter::zip(vec![1], vec![2]).count() == 1
[1,2,3].windows(2).map(|w| w[0] + w[1]).collect::<Vec<i32>>() == vec![3,5]
[1,2,3].chunks(2).count() == 2
[1,2,3].first() == Some(&1)
[1,2,3].last() == Some(&3)
[1,2,3].split_first() == Some((&1, &[2,3][..]))
[1,2,3].split_last() == Some((&3, &[1,2][..]))
[1,2,3].split_at(1) == (&[1][..], &[2,3][..])
[1,2,3].contains(&2)
[1,2,3].starts_with(&[1,2])
[1,2,3].ends_with(&[2,3])
[1,2,3].strip_prefix(&[1]) == Some(&[2,3][..])
[1,2,3].get(5).is_none()
[1,2,3].get(1..).map(|x| x.len()) == Some(2)
[1,2,3].to_vec() == vec![1,2,3]
["a","b"].join("-") == "a-b"
["a","b"].concat() == "ab"
[[1],[2]].concat() == vec![1,2]
[3,1,2].iter().is_sorted() == false
[1,2,3].iter().rev().skip(1).rev().count() == 2
[1,2,3].binary_search(&2) == Ok(1)
[1,2,3].repeat(2).len() == 6
[1,2,3].is_empty() == false
[1,2,2,3].split(|x| *x == 2).count() == 3
{ let mut v = vec![1,2,3]; v.insert(1, 9); v == vec![1,9,2,3] }
{ let mut v = vec![1,2,3]; v.remove(0) == 1 && v == vec![2,3] }
{ let mut v = vec![1,2,3]; v.swap_remove(0) == 1 && v == vec![3,2] }
{ let mut v = vec![1,2,3]; v.swap(0, 2); v == vec![3,2,1] }
{ let mut v = vec![1,2,3]; v.truncate(1); v == vec![1] }
{ let mut v = vec![1,2,3]; v.retain(|x| *x != 2); v == vec![1,3] }
{ let mut v = vec![1,2,3]; v.retain_mut(|x| { *x += 1; *x != 3 }); v == vec![2,4] }
{ let mut v = vec![1,2,3]; v.split_off(1) == vec![2,3] && v == vec![1] }
{ let mut v = vec![1,2,3]; v.drain(..1).count() == 1 && v == vec![2,3] }
{ let mut v = vec![1,2,3]; v.drain(1..).collect::<Vec<_>>() == vec![2,3] && v.len() == 1 }
{ let mut v = vec![1,2,3]; v.splice(0..1, [7,8]); v == vec![7,8,2,3] }
{ let mut v = vec![1]; v.extend_from_slice(&[2]); v.extend(vec![3]); v.append(&mut vec![4]); v == vec![1,2,3,4] }
{ let mut v = vec![3,1,2]; v.sort(); v == vec![1,2,3] }
{ let mut v = vec![3,1,2]; v.sort_unstable(); v == vec![1,2,3] }
{ let mut v = vec![3,1,2]; v.sort_by(|a, b| b.cmp(a)); v == vec![3,2,1] }
{ let mut v = vec!["bb","a"]; v.sort_by_key(|x| x.len()); v == vec!["a","bb"] }
{ let mut v = vec![1,1,2]; v.dedup(); v == vec![1,2] }
{ let mut v = vec![1,2,3]; v.dedup_by_key(|x| *x / 2); v == vec![1,2] }
{ let mut v = vec![1,2,3]; v.reverse(); v == vec![3,2,1] }
{ let mut v = vec![1,2,3]; v.rotate_left(1); v == vec![2,3,1] }
{ let mut v = vec![1,2,3]; v.pop() == Some(3) && v.len() == 2 }
{ let mut v = vec![1,2]; v.clear(); v.is_empty() }
{ let mut v = vec![1,2]; v.resize(3, 0); v == vec![1,2,0] }
{ let mut v = vec![1,2]; if let Some(x) = v.last_mut() { *x = 7; } v == vec![1,7] }
{ let mut v = vec![1,2]; if let Some(x) = v.first_mut() { *x = 7; } v == vec![7,2] }
{ let mut v = vec![1,2]; if let Some(x) = v.get_mut(0) { *x = 7; } v == vec![7,2] }
{ let mut v = vec![1,2]; for x in &mut v { *x += 1; } v == vec![2,3] }
{ let mut v = vec![1,2]; v.iter_mut().for_each(|x| *x += 1); v == vec![2,3] }
{ let mut v = vec![0,0]; v.fill(3); v == vec![3,3] }
{ let mut v = Vec::with_capacity(4); v.push(1); v == vec![1] }
{ let v = vec![1,2,3]; v[1..].len() == 2 && v[..2].len() == 2 && v[1] == 2 }
{ let v = vec![1,2,3]; matches!(v.as_slice(), [1, .., 3]) }
{ let v = vec![1,2,3]; if let [a, rest @ ..] = &v[..] { *a == 1 && rest.len() == 2 } else { false } }
{ let v: Box<[i32]> = vec![1].into_boxed_slice(); v.len() == 1 }
{ let a: [i32; 2] = vec![1,2].try_into().unwrap(); a == [1,2] }
vec![1,2] < vec![1,3]
vec![1; 3].len() == 3
Some(1).map(|x| x + 1) == Some(2)
Some(1).map_or(0, |x| x + 1) == 2
None::<i32>.map_or_else(|| 5, |x| x) == 5
Some(1).and_then(|x| if x > 0 { Some(x) } else { None }) == Some(1)
Some(1).filter(|x| *x > 1) == None
Some(1).or(Some(2)) == Some(1)
None.or_else(|| Some(2)) == Some(2)
Some(1).xor(None) == Some(1)
Some(1).and(Some("a")) == Some("a")
Some(1).zip(Some("a")) == Some((1, "a"))
Some(1).is_some_and(|x| x == 1)
Some(1).is_none() == false
Some(1).unwrap_or(3) == 1
None::<i32>.unwrap_or_default() == 0
None.unwrap_or_else(|| 4) == 4
Some(1).ok_or("e") == Ok(1)
None::<i32>.ok_or_else(|| "e") == Err("e")
Some(Some(1)).flatten() == Some(1)
Some(Ok::<i32, ()>(1)).transpose() == Ok(Some(1))
Some(&1).copied() == Some(1)
Some(&"a".to_owned()).cloned() == Some("a".to_owned())
Some("a".to_owned()).as_deref() == Some("a")
Some("a".to_owned()).as_ref().map(|x| x.len()) == Some(1)
Some(1).iter().count() == 1
Some(1).into_iter().chain(None).count() == 1
Some(1).expect("x") == 1
{ let mut o = Some(1); o.take() == Some(1) && o.is_none() }
{ let mut o = Some(1); o.replace(2) == Some(1) && o == Some(2) }
{ let mut o = None; *o.get_or_insert(3) == 3 }
{ let mut o = None; *o.get_or_insert_with(|| 3) == 3 && o == Some(3) }
{ let mut o = None; o.insert(1); o == Some(1) }
{ let mut o = Some(1); if let Some(x) = o.as_mut() { *x = 2; } o == Some(2) }
{ let o: Option<i32> = 3.into(); o == Some(3) }
Ok::<i32, i32>(1).map(|x| x + 1) == Ok(2)
Err::<i32, i32>(1).map_err(|x| x + 1) == Err(2)
Ok::<i32, i32>(1).and_then(|x| Err::<i32, i32>(x)) == Err(1)
Err::<i32, i32>(1).or_else(|x| Ok::<i32, i32>(x)) == Ok(1)
Err::<i32, i32>(1).or(Ok::<i32, i32>(2)) == Ok(2)
Ok::<i32, i32>(1).and(Ok::<i32, i32>(2)) == Ok(2)
Ok::<i32, i32>(1).is_ok_and(|x| x == 1)
Err::<i32, i32>(1).is_err()
Err::<i32, i32>(1).is_err_and(|x| x == 1)
Ok::<i32, i32>(1).ok() == Some(1)
Err::<i32, i32>(1).err() == Some(1)
Err::<i32, i32>(1).unwrap_or(2) == 2
Err::<i32, i32>(1).unwrap_or_default() == 0
Err::<i32, i32>(1).unwrap_or_else(|x| x) == 1
Ok::<i32, i32>(1).map_or(0, |x| x) == 1
Ok::<i32, i32>(1).map_or_else(|e| e, |x| x + 1) == 2
Ok::<Option<i32>, i32>(None).transpose() == None
Ok::<i32, i32>(1).iter().count() == 1
Ok::<i32, i32>(1).as_ref().ok() == Some(&1)
Ok::<i32, i32>(1).into_iter().count() == 1
vec![Ok(1), Err("x"), Ok(2)].into_iter().flatten().count() == 2
true.then(|| 1) == Some(1)
false.then_some(1) == None
(true ^ false) && !(true & false) && (true | false)
"a.b.c".split('.').collect::<Vec<_>>() == vec!["a","b","c"]
"a.b.c".split(".").count() == 3
"a.b.c".rsplit('.').next() == Some("c")
"a.b.c".splitn(2, '.').collect::<Vec<_>>() == vec!["a","b.c"]
"a.b.c".rsplitn(2, '.').collect::<Vec<_>>() == vec!["c","a.b"]
"a.b.c".split_once('.') == Some(("a","b.c"))
"a.b.c".rsplit_once('.') == Some(("a.b","c"))
"a.b.".split_terminator('.').count() == 2
"a.b".split_inclusive('.').collect::<Vec<_>>() == vec!["a.","b"]
"a,b;c".split([',', ';']).count() == 3
"a,b;c".split(|c: char| c == ',' || c == ';').count() == 3
"a b  c".split_whitespace().collect::<Vec<_>>() == vec!["a","b","c"]
"a\nb".lines().count() == 2
"abc".chars().rev().collect::<String>() == "cba"
"abc".chars().next() == Some('a')
"abc".chars().last() == Some('c')
"abc".chars().all(char::is_alphabetic)
"abc".chars().any(|c| c.is_uppercase()) == false
"abc".chars().nth(1) == Some('b')
"abc".chars().filter(|c| *c != 'b').collect::<String>() == "ac"
"abc".char_indices().find(|(_, c)| *c == 'b').map(|(i, _)| i) == Some(1)
"abc".bytes().next() == Some(b'a')
"abc".as_bytes()[0] == b'a'
"abc".find('b') == Some(1)
"abcb".rfind('b') == Some(3)
"abc".find("bc") == Some(1)
"abc".contains("bc") && "abc".contains('a') && "abc".contains(|c| c == 'c')
"abc".starts_with("ab") && "abc".starts_with('a') && "abc".ends_with("bc") && "abc".ends_with('c')
"abc".starts_with(char::is_alphabetic)
"abc".strip_prefix("a") == Some("bc")
"abc".strip_suffix("c") == Some("ab")
"abc".strip_prefix('x') == None
" a ".trim() == "a" && " a ".trim_start() == "a " && " a ".trim_end() == " a"
"xxaxx".trim_matches('x') == "a"
"xxaxx".trim_start_matches("x") == "axx"
"xxaxx".trim_end_matches('x') == "xxa"
"a-b".replace('-', "_") == "a_b"
"a-b-c".replacen("-", "_", 1) == "a_b-c"
"AbC".to_lowercase() == "abc" && "AbC".to_uppercase() == "ABC"
"AbC".to_ascii_lowercase() == "abc" && "AbC".to_ascii_uppercase() == "ABC"
"AbC".eq_ignore_ascii_case("aBc")
"ab".repeat(2) == "abab"
"abc"[1..] == *"bc" && &"abc"[..1] == "a"
"abc".get(1..2) == Some("b")
"abc".is_char_boundary(1)
"abc".split_at(1) == ("a", "bc")
"abc".len() == 3 && !"abc".is_empty()
"12".parse::<usize>() == Ok(12)
"x".parse::<usize>().is_err()
"abc".matches('b').count() == 1
"abc".match_indices("b").next() == Some((1, "b"))
"abc".to_owned() + "d" == "abcd"
"abc".cmp("abd") == std::cmp::Ordering::Less
"a" < "b"
"a\"b".escape_debug().to_string() == "a\\\"b"
String::from("a") == "a"
String::from_utf8(vec![97]).as_deref() == Ok("a")
String::from_utf8_lossy(b"a") == "a"
format!("{}-{}", 1, "a") == "1-a"
format!("{:?}", "a") == "\"a\""
format!("{:>3}", 1) == "  1"
format!("{0}{0}", "a") == "aa"
{ let x = "n"; format!("{x}_{y}", y = 2) == "n_2" }
{ let mut s = String::new(); s.push('a'); s.push_str("b"); s.insert(0, 'c'); s.insert_str(0, "d"); s == "dcab" }
{ let mut s = "abc".to_string(); s.pop() == Some('c') && s == "ab" }
{ let mut s = "abc".to_string(); s.truncate(1); s == "a" }
{ let mut s = "abc".to_string(); s.remove(0) == 'a' && s == "bc" }
{ let mut s = "abc".to_string(); s.retain(|c| c != 'b'); s == "ac" }
{ let mut s = "abc".to_string(); s.clear(); s.is_empty() }
{ let mut s = "abc".to_string(); s += "d"; s == "abcd" }
{ let mut s = "abc".to_string(); s.extend(['d']); s == "abcd" }
{ let mut s = "abc".to_string(); s.replace_range(0..1, "x"); s == "xbc" }
{ let mut s = "abc".to_string(); s.drain(..1).count() == 1 && s == "bc" }
{ let mut s = "abc".to_string(); s.make_ascii_uppercase(); s == "ABC" }
{ use std::fmt::Write; let mut s = String::new(); write!(s, "{}", 1).is_ok() && s == "1" }
{ let s: &str = &"abc".to_string(); s.to_string().as_str() == "abc" }
{ let s: Box<str> = "abc".into(); &*s == "abc" }
{ let s: std::borrow::Cow<str> = "abc".into(); s.into_owned() == "abc" }
{ let s: String = "abc".into(); s.into_bytes().len() == 3 }
'a'.is_alphanumeric() && '_'.is_alphabetic() == false && '1'.is_numeric() && '1'.is_ascii_digit()
'a'.to_ascii_uppercase() == 'A' && 'A'.is_uppercase() && 'a'.is_lowercase() && ' '.is_whitespace()
'a'.to_uppercase().collect::<String>() == "A"
'a'.to_string() == "a"
char::from_digit(1, 10) == Some('1')
{ let mut m = HashMap::new(); m.insert("a", 1); m.get("a") == Some(&1) && m.contains_key("a") && m.len() == 1 }
{ let mut m = HashMap::new(); m.insert("a", 1); m.insert("a", 2) == Some(1) && m["a"] == 2 }
{ let mut m: HashMap<&str, i32> = HashMap::new(); *m.entry("a").or_insert(0) += 1; m["a"] == 1 }
{ let mut m: HashMap<&str, Vec<i32>> = HashMap::new(); m.entry("a").or_default().push(1); m["a"].len() == 1 }
{ let mut m: HashMap<&str, i32> = HashMap::new(); m.entry("a").or_insert_with(|| 4); m["a"] == 4 }
{ let mut m: HashMap<&str, i32> = HashMap::new(); m.insert("a", 1); m.entry("a").and_modify(|x| *x += 1).or_insert(9); m["a"] == 2 }
{ let mut m: HashMap<&str, i32> = HashMap::new(); match m.entry("a") { std::collections::hash_map::Entry::Occupied(_) => false, std::collections::hash_map::Entry::Vacant(v) => { v.insert(1); m.len() == 1 } } }
{ let mut m = HashMap::new(); m.insert("a", 1); m.remove("a") == Some(1) && m.is_empty() }
{ let mut m = HashMap::new(); m.insert("a", 1); m.keys().count() == 1 && m.values().sum::<i32>() == 1 }
{ let mut m = HashMap::new(); m.insert("a", 1); m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() == vec![("a", 1)] }
{ let mut m = HashMap::new(); m.insert("a", 1); m.into_iter().next() == Some(("a", 1)) }
{ let mut m = HashMap::new(); m.insert("a", 1); for (_, v) in m.iter_mut() { *v = 3; } m["a"] == 3 }
{ let mut m = HashMap::new(); m.insert("a", 1); if let Some(v) = m.get_mut("a") { *v = 3; } m["a"] == 3 }
{ let mut m = HashMap::new(); m.insert("a", 1); m.retain(|_, v| *v > 1); m.is_empty() }
{ let mut m = HashMap::new(); m.extend([("a", 1)]); m.get_or_zero("a") == 1 }
{ let m: HashMap<_, _> = vec![("a", 1)].into_iter().collect(); m.get("a").copied().unwrap_or(0) == 1 }
{ let m = HashMap::from([("a", 1)]); m.get_key_value("a") == Some((&"a", &1)) }
{ let m: BTreeMap<_, _> = vec![(2, 1), (1, 2)].into_iter().collect(); m.keys().copied().collect::<Vec<i32>>() == vec![1, 2] }
{ let mut m = BTreeMap::new(); m.insert(1, 2); m.get(&1) == Some(&2) && m.first_key_value() == Some((&1, &2)) }
{ let mut s = HashSet::new(); s.insert(1) && !s.insert(1) && s.contains(&1) && s.len() == 1 && s.remove(&1) && s.is_empty() }
{ let s: HashSet<_> = [1, 1].into_iter().collect(); s.len() == 1 }
{ let a: HashSet<i32> = [1, 2].into(); let b: HashSet<i32> = [2].into(); a.intersection(&b).count() == 1 && a.difference(&b).count() == 1 && a.union(&b).count() == 2 && b.is_subset(&a) && !a.is_disjoint(&b) && a.is_superset(&b) && a.symmetric_difference(&b).count() == 1 }
{ let mut s = HashSet::new(); s.extend([1, 2]); s.retain(|x| *x > 1); s.iter().copied().collect::<Vec<i32>>() == vec![2] }
{ let mut s = HashSet::new(); s.insert(1); s.take(&1) == Some(1) && s.get(&1).is_none() }
{ let s: BTreeSet<_> = [2, 1, 2].into_iter().collect(); s.into_iter().collect::<Vec<i32>>() == vec![1, 2] }
{ let mut d: std::collections::VecDeque<i32> = [1, 2].into(); d.push_front(0); d.pop_back() == Some(2) && d.pop_front() == Some(0) && d.len() == 1 }
{ let mut s: FxHashSet<&str> = FxHashSet::default(); s.insert("a") && s.contains("a") }
{ let mut m: FxHashMap<&str, i32> = FxHashMap::default(); m.insert("a", 1); m.get("a").is_some() }
vec![1,2,1].into_iter().unique().collect::<Vec<_>>() == vec![1,2]
vec!["a","bb","c"].into_iter().unique_by(|x| x.len()).count() == 2
vec![2,1].into_iter().sorted().collect::<Vec<_>>() == vec![1,2]
vec![2,1].into_iter().sorted_by(|a, b| a.cmp(b)).collect::<Vec<_>>() == vec![1,2]
vec!["bb","a"].into_iter().sorted_by_key(|x| x.len()).collect_vec() == vec!["a","bb"]
vec![1,1,2].into_iter().dedup().collect_vec() == vec![1,2]
vec![1,2].iter().join(",") == "1,2"
vec![1,2].iter().format(",").to_string() == "1,2"
vec![1,2].into_iter().interleave(vec![3,4]).collect_vec() == vec![1,3,2,4]
vec![1,2].into_iter().intersperse(0).collect_vec() == vec![1,0,2]
vec![1,2,3].into_iter().tuple_windows().map(|(a, b)| a + b).collect_vec() == vec![3,5]
vec![1,2].into_iter().cartesian_product(vec![3,4]).count() == 4
vec![1,2].into_iter().all_equal() == false
vec![1,2].into_iter().contains(&2)
vec![1,1,2].into_iter().counts().get(&1) == Some(&2)
vec![("a",1),("a",2)].into_iter().into_group_map()["a"] == vec![1,2]
vec![1,2,3].into_iter().partition_map::<Vec<i32>, Vec<i32>, _, _, _>(|x| if x > 1 { Either::Left(x) } else { Either::Right(x) }) == (vec![2,3], vec![1])
vec![1,2,3].into_iter().position_max() == Some(2)
vec![1].into_iter().exactly_one().ok() == Some(1)
vec![1,2].into_iter().at_most_one().is_err()
vec![1,2].into_iter().collect_tuple() == Some((1,2))
vec![1,2].into_iter().fold_while(0, |a, x| itertools::FoldWhile::Continue(a + x)).into_inner() == 3
vec![1,2].iter().duplicates().count() == 0
vec![1,2].into_iter().minmax().into_option() == Some((1,2))
vec![Ok::<i32, ()>(1)].into_iter().map_ok(|x| x + 1).collect_vec() == vec![Ok(2)]
vec![Ok::<i32, ()>(1)].into_iter().filter_ok(|x| *x > 1).count() == 0
vec![Ok::<i32, ()>(1)].into_iter().try_collect::<_, Vec<_>, _>() == Ok(vec![1])
vec![1,2].into_iter().zip_longest(vec![1]).count() == 2
vec![1,2].into_iter().rev().rev().with_position().count() == 2
itertools::chain(vec![1], vec![2]).count() == 2
itertools::repeat_n(1, 3).count() == 3
3usize.saturating_sub(5) == 0
3usize.checked_sub(5) == None
3u8.wrapping_sub(5) == 254
3i32.pow(2) == 9
3.max(4) == 4 && 3.min(4) == 3
(-3i32).abs() == 3
7 % 3 == 1 && 7 / 2 == 3
5usize.clamp(1, 3) == 3
usize::from(true) == 1
i32::try_from(5usize) == Ok(5)
(5u8 as char) != 'a'
1u32.leading_zeros() == 31
3.cmp(&4) == std::cmp::Ordering::Less
3.cmp(&4).then(1.cmp(&0)).is_lt()
3.partial_cmp(&4).map(|x| x.reverse()) == Some(std::cmp::Ordering::Greater)
std::cmp::max("a", "b") == "b" && std::cmp::min(1, 2) == 1
{ let mut a = 1; let b = std::mem::replace(&mut a, 2); a == 2 && b == 1 }
{ let mut a = vec![1]; let b = std::mem::take(&mut a); a.is_empty() && b.len() == 1 }
{ let (mut a, mut b) = (1, 2); std::mem::swap(&mut a, &mut b); a == 2 && b == 1 }
{ let b = Box::new(3); *b == 3 }
{ let r = std::rc::Rc::new(3); *r.clone() == 3 && std::rc::Rc::strong_count(&r) == 1 }
{ let r = std::cell::RefCell::new(vec![1]); r.borrow_mut().push(2); let n = r.borrow().len(); n == 2 }
{ let c = std::cell::Cell::new(1); c.set(2); c.get() == 2 }
{ let p = std::path::Path::new("a/b.txt"); p.file_name().and_then(|x| x.to_str()) == Some("b.txt") }
{ let p = std::path::PathBuf::from("a").join("b"); p.parent() == Some(std::path::Path::new("a")) }
{ let f: Box<dyn Fn(i32) -> i32> = Box::new(|x| x + 1); f(1) == 2 }
{ let f = |x: i32| x + 1; f(2) == 3 }
{ let f = |x: i32, y: &str| format!("{x}{y}"); f(2, "a") == "2a" }
{ let f = || 4; f() == 4 && f() == 4 }
{ let mut n = 0; let mut f = |x: i32| { n += x; n }; f(1); f(2); n == 3 }
{ let s = String::from("a"); let f = move || s; f() == "a" }
{ let v = vec![1, 2, 3]; let has = |x: i32| v.iter().any(|y| *y == x); has(2) && !has(5) }
{ fn ap<F: Fn(i32) -> i32>(f: F, x: i32) -> i32 { f(f(x)) } ap(|x| x * 2, 3) == 12 }
{ fn ap(f: impl FnOnce(i32, i32) -> i32) -> i32 { f(1, 2) } ap(|a, b| a - b) == -1 }
{ fn ap(f: &dyn Fn(&str) -> bool) -> bool { f("a") } ap(&|s| s == "a") }
{ fn ap(f: fn(i32) -> i32) -> i32 { f(3) } fn d(x: i32) -> i32 { x * 2 } ap(d) == 6 && ap(|x| x) == 3 }
{ fn ap(f: &mut impl FnMut(i32)) { f(1); f(2) } let mut v = vec![]; ap(&mut |x| v.push(x)); v == [1, 2] }
{ let fs: Vec<Box<dyn Fn(i32) -> i32>> = vec![Box::new(|x| x + 1), Box::new(|x| x * 3)]; fs.iter().map(|f| f(2)).collect::<Vec<_>>() == vec![3, 6] }
{ let f = |t: (i32, i32)| t.0 + t.1; f((1, 2)) == 3 }
{ let f = |(a, b): (i32, i32)| a + b; [(1, 2)].into_iter().map(f).sum::<i32>() == 3 }
{ let t = Some(3); let f = |x: &i32| *x > 2; t.filter(f).is_some() && t.as_ref().is_some_and(f) }
{ (0..).map(|i| i * 2).find(|x| *x > 5) == Some(6) }
{ let mut it = (1..).map_while(|i| if i < 4 { Some(i) } else { None }); it.next() == Some(1) && it.count() == 2 }
{ let v = vec!["x"; 3]; v.len() == 3 && v.join("") == "xxx" }
{ let mut v = vec![1, 2, 3, 4]; v.splice(1..3, [9]); v == [1, 9, 4] }
{ let v = [1, 2, 3]; let (a, b) = v.split_last().unwrap(); *a == 3 && b == [1, 2] && v.split_first().is_some() }
{ let v = [1, 2, 3]; v.strip_prefix(&[1, 2]) == Some(&[3][..]) && v.strip_prefix(&[2]).is_none() }
{ let (a, b): (Vec<i32>, Vec<&str>) = [(1, "a"), (2, "b")].into_iter().unzip(); a == [1, 2] && b == ["a", "b"] }
{ let x = true.then(|| Ok::<i32, String>(3)).transpose(); x == Ok(Some(3)) }
{ let x: Option<Result<i32, String>> = false.then(|| Err("a".into())); x.transpose() == Ok(None) }
{ let mut a = vec![1]; let mut b = vec![2]; std::mem::swap(&mut a, &mut b); a == [2] && b == [1] }
{ let l: &mut Vec<i32> = if true { &mut vec![1] } else { &mut vec![2] }; l.push(5); l.len() == 2 }
{ let a = "..a.b"; a.len() - a.trim_start_matches('.').len() == 2 }
{ let f = |x: i32| x + 1; [1].map(f) == [2] }
{ fn g(x: i32) -> i32 { if x == 0 { 0 } else { g(x - 1) + 1 } } g(3) == 3 }
{ let mut n = 0; loop { n += 1; if n > 3 { break n == 4; } } }
{ let mut n = 0; 'o: for i in 0..3 { for j in 0..3 { if j == 2 { continue 'o; } if i == 2 { break 'o; } n += 1; } } n == 4 }
{ let x = Some(3); let Some(y) = x else { return false }; y == 3 }
{ let v = vec![(1, "a"), (2, "b")]; v.iter().map(|&(n, _)| n).collect::<Vec<_>>() == vec![1, 2] }
{ #[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)] struct A { x: i32, y: String } let a = A { x: 1, ..Default::default() }; let b = A { y: "z".into(), ..a.clone() }; a != b && a < b && a.y.is_empty() }
{ #[derive(PartialEq, Clone, Copy)] enum E { A, B(i32), C { z: i32 } } let e = E::C { z: 2 }; match e { E::A => false, E::B(_) => false, E::C { z } => z == 2 } }
{ trait T { fn f(&self) -> i32; fn g(&self) -> i32 { self.f() + 1 } } struct A; impl T for A { fn f(&self) -> i32 { 1 } } let t: &dyn T = &A; t.g() == 2 }
{ struct A(i32); impl From<i32> for A { fn from(x: i32) -> Self { A(x) } } let a: A = 3.into(); a.0 == 3 }
{ struct C(i32); impl Iterator for C { type Item = i32; fn next(&mut self) -> Option<i32> { self.0 += 1; if self.0 < 4 { Some(self.0) } else { None } } } C(0).map(|x| x * 2).sum::<i32>() == 12 }
{ struct D; impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "d{}", 1) } } D.to_string() == "d1" && format!("{D}") == "d1" }
{ fn q() -> Option<i32> { let x = Some(1)?; Some(x + 1) } q() == Some(2) }
{ fn q() -> Result<i32, Box<dyn std::error::Error>> { let x: i32 = "5".parse()?; Ok(x) } q().ok() == Some(5) }
{ let s = "abc"; let t: String = s.chars().map(|c| if c == 'b' { '_' } else { c }).collect(); t == "a_c" }
{ let s = "a b"; let w: Vec<String> = s.split(' ').map(str::to_owned).collect(); w.len() == 2 }
{ let s = "a b"; let w: Vec<String> = s.split(' ').map(ToString::to_string).map(|mut x| { x.push('!'); x }).collect(); w[0] == "a!" }
{ let v = vec!["a".to_string()]; v.iter().map(String::as_str).collect::<Vec<_>>().join(".") == "a" }
{ let v = vec!["a".to_string()]; v.contains(&"a".to_string()) && v.iter().any(|x| x == "a") }
'''
L = [l for l in S.strip().split('\n') if l.strip()]
out = ['#![allow(warnings)]', 'use std::collections::*; use itertools::{Itertools, Either}; use rustc_hash::{FxHashMap, FxHashSet};',
       'trait Gz { fn get_or_zero(&self, k: &str) -> i32; } impl Gz for HashMap<&str, i32> { fn get_or_zero(&self, k: &str) -> i32 { self.get(k).copied().unwrap_or(0) } }']
for i, l in enumerate(L):
    out.append('pub fn t%d() -> bool { %s }' % (i, l))
out.append('#[test] fn all() { let mut bad = vec![]; %s assert!(bad.is_empty(), "{:?}", bad); }' % ' '.join('if !t%d() { bad.push(%d); }' % (i, i) for i in range(len(L))))
open('src/lib.rs', 'w').write('\n'.join(out) + '\n')
