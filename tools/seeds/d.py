def pyseed(name,prop,edits,needs,breaks,demo):
    seed(name,prop,edits,needs,breaks,None,'demo_tools_template.sh')
    PYDEMOS[name]=demo
PYDEMOS={}
PYPRE='''import os, struct, subprocess, sys, time
data = sys.argv[1]
def store(name, fmt, values):
    with open(os.path.join(data, name), "wb") as f: f.write(struct.pack("<%d%s" % (len(values), fmt), *values))
def load(name, fmt, size):
    b = open(os.path.join(data, name), "rb").read()
    return list(struct.unpack("<%d%s" % (len(b) // size, fmt), b))
def run(*args):
    return subprocess.run([os.path.join(os.environ["BIN"], args[0])] + list(args[1:]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=data)
'''
pyseed('C27-box-border','C27',[('utils/src/bin/subgraph.rs','lng[node] >= min_lon && lng[node] <= max_lon','lng[node] > min_lon && lng[node] <= max_lon')],
 'a node exactly on the western border of the box',
 'nodes on one of the four borders of the box are dropped with their arcs',
 '# build: -p utils --bin subgraph\n'+PYPRE+'''
store("first_out", "I", [0, 2, 4, 5, 6]); store("head", "I", [1, 2, 0, 3, 0, 1]); store("travel_time", "I", [1, 2, 3, 4, 5, 6])
store("latitude", "f", [1.0, 2.0, 1.5, 3.0]); store("longitude", "f", [5.0, 6.0, 5.5, 7.0])
os.mkdir(os.path.join(data, "out"))
r = run("subgraph", data, "1.0", "5.0", "2.0", "6.0", os.path.join(data, "out"))
got = [load("out/" + x, "I", 4) for x in ("first_out", "head", "travel_time")]
print(r.returncode, got)
sys.exit(0 if got == [[0, 2, 3, 4], [1, 2, 0, 0], [1, 2, 3, 5]] else 1)
''')
pyseed('C28-live-speed','C28',[('conversion/src/bin/mapbox_to_live_array.rs','100 * 36 * geo_distance[edge_idx as usize] / speed','geo_distance[edge_idx as usize] / speed * 100 * 36')],
 'a length which is not a multiple of the speed',
 'the live travel time is cut off to a multiple of 3.6 seconds, 0 for short arcs',
 '# build: -p conversion --bin mapbox_to_live_array\n'+PYPRE+'''
store("first_out", "I", [0, 1, 2]); store("head", "I", [1, 0])
store("geo_distance", "I", [100, 30]); store("osm_node_ids", "Q", [7, 12])
os.mkdir(os.path.join(data, "live"))
open(os.path.join(data, "live", "a.csv"), "w").write("7,12,50\\n12,7,36\\n")
r = run("mapbox_to_live_array", data, os.path.join(data, "live"))
got = load("live_data", "I", 4)
print(r.returncode, got)
sys.exit(0 if got == [0, 7200, 3600000, 1, 3000, 3600000] else 1)
''')
pyseed('C22-huge-weight','C22',[('server/src/main.rs','if w < INFINITY.into() {','if w <= u32::MAX.into() {')],
 'a customization with a weight of INFINITY or more',
 'weights beyond the documented maximum are accepted: sums overflow and the engine answers with nonsense or ends',
 '# build: -p server --bin server\n'+PYPRE+'''
import socket, urllib.request, urllib.error
store("first_out", "I", [0, 1, 2]); store("head", "I", [1, 0]); store("travel_time", "I", [10, 20])
store("latitude", "f", [1.0, 2.0]); store("longitude", "f", [5.0, 6.0])
store("link_id_mapping", "Q", [1 << 7] + [0] * 7); store("here_rank_to_link_id", "I", [0, 1]); store("cch_perm", "I", [0, 1])
os.mkdir(os.path.join(data, "static")); open(os.path.join(data, "static", "token"), "w").write("x")
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
env = dict(os.environ, ROCKET_ENV="production", ROCKET_ADDRESS="127.0.0.1", ROCKET_PORT=str(port), ROCKET_LOG="off", ROCKET_SECRET_KEY="hPRYyVRiMyxpw5sBB1XeCMN1kFsDCqKvBi2QJxBVHQk=")
p = subprocess.Popen([os.path.join(os.environ["BIN"], "server"), data], cwd=data, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def request(path, body=None):
    try:
        return urllib.request.urlopen(urllib.request.Request("http://127.0.0.1:%d%s" % (port, path), body, {"Content-Type": "application/json", "Accept": "application/json"}), timeout=20).status
    except urllib.error.HTTPError as e:
        return e.code
bad = []
try:
    for i in range(200):
        try:
            if request("/token") == 200: break
        except OSError: time.sleep(0.05)
    for w in (2147483647, 2147483648, 4294967295):
        status = request("/customize", b"[[7,true,%d]]" % w)
        if not 400 <= status < 500: bad.append((w, status))
    status = request("/customize", b"[[7,true,5]]")
    if status != 200: bad.append((5, status))
finally:
    p.kill(); p.wait()
print(bad)
sys.exit(1 if bad else 0)
''')
seed('C06-unpacked-forever','C06',[('engine/src/algo/ch_potentials.rs','''        self.path_unpacked.clear();
        self.potentials.reset();
''','''        self.potentials.reset();
''')],
 'paths unpacked for one target and then for another one with the same path potential',
 'nodes unpacked for an earlier target count as unpacked: their parents are the ends of shortcuts',
 PRE+'''
use rust_road_router::algo::{a_star::Potential, ch_potentials::*, customizable_contraction_hierarchy::*};
fn main() {
    // a line, every second node contracted first
    let mut e = Vec::new();
    for i in 0..8 { e.push((i, i + 1, 10)); e.push((i + 1, i, 10)); }
    let graph = g(9, &e);
    let cch = CCH::fix_order_and_build(&graph, NodeOrder::from_node_order(vec![1, 3, 5, 7, 2, 6, 0, 8, 4]));
    let data = CCHPotData::new(&cch, &graph);
    let mut pot = data.forward_path_potential();
    let o = cch.node_order();
    let mut bad = 0;
    for t in [0u32, 8, 4, 3, 0] {
        pot.init(o.rank(t));
        for v in [0u32, 8, 2, 6, 5] {
            if pot.potential(o.rank(v)) != Some((v as i32 - t as i32).abs() as u32 * 10) { println!("distance {} {}", v, t); bad = 1; }
            pot.unpack_path(NodeIdT(o.rank(v)));
            let (mut cur, mut steps) = (v, 0);
            while cur != t && steps < 20 {
                let next = o.node(pot.target_shortest_path_tree()[o.rank(cur) as usize].0);
                if (next as i32 - cur as i32).abs() != 1 { println!("target {}: {} is followed by {}", t, cur, next); bad = 1; }
                cur = next; steps += 1;
            }
            if cur != t { bad = 1; }
        }
    }
    std::process::exit(bad);
}
''')
