#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the uncommitted change of /repo as patch of seeded/ID, undoes it, writes demo.sh/meta.json
# (demo.cpp must already be in seeded/ID; further repo sources that it needs are listed in the file seeded/ID/sources)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -- .
test -s $d/patch.diff
python3 - "$@" <<'PY'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
PY
cat > $d/demo.sh <<'SH'
#!/bin/bash
# run in the root of the repository after its build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/stub/opencv2"
cat > "$work/stub/opencv2/xfeatures2d.hpp" <<'STUB'
#include <opencv2/features2d.hpp>
namespace cv { namespace xfeatures2d {
struct BriefDescriptorExtractor : public cv::Feature2D { static cv::Ptr<cv::ORB> create(int = 32, bool = false) { return cv::ORB::create(); } };
} }
STUB
inc="-I$work/stub -Isrc"
for i in features/keypoints features/lines features/primitives pose_optimization map_management map_management/map_features tracking outputs utils coordinates; do inc="$inc -Isrc/$i"; done
inc="$inc -Ithird_party -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -isystem /usr/include/flann"
flags="-std=gnu++20 -O0 -w -pthread $(cat "$here/flags" 2>/dev/null)"
libs="-L$PWD/_build -Wl,-rpath,$PWD/_build -Wl,--no-as-needed -lprimitives -llines -ltracking -lcoordinates -loutputs -lutils -lthirdParty -lrgbSLAM"
for l in core imgproc features2d video calib3d imgcodecs highgui flann; do libs="$libs -lopencv_$l"; done
libs="$libs -ltbb -llz4 -lpthread"
pids=""; objs=""
for s in "$here/demo.cpp" $(cat "$here/sources" 2>/dev/null); do
  o="$work/$(basename "$s").o"; objs="$objs $o"
  g++ $flags $inc -c "$s" -o "$o" & pids="$pids $!"
done
for p in $pids; do wait $p || { echo "the demonstration does not compile"; exit 3; }; done
g++ -o "$work/demo" $objs $libs || exit 3
cd "$work" && timeout 120 ./demo
SH
chmod +x $d/demo.sh
