# sourced: builds run.so and run.xml in a scratch directory $w and goes there; RUN runs the runner
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "${w:?}"' EXIT
f="-std=gnu++17 -w -g -DNDEBUG $(pkg-config --cflags apr-1 xerces-c icu-uc) -I$repo/src/framework -I$repo/src/cas -I$here"
l="-L$repo/_build/prefix/lib -luima $(pkg-config --libs apr-1 xerces-c icu-uc) -ldl -lpthread"
g++ $f -fPIC -shared "$here/run.cpp" -o "$w/run.so" $l || exit 2
cd "$w" || exit 2
cat > run.xml <<X
<?xml version="1.0" encoding="UTF-8"?>
<analysisEngineDescription xmlns="http://uima.apache.org/resourceSpecifier">
<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive>
<annotatorImplementationName>$w/run.so</annotatorImplementationName>
<analysisEngineMetaData><name>run</name><description/><version>1</version><vendor/>
<configurationParameters/><configurationParameterSettings/><typeSystemDescription/><fsIndexes/>
<capabilities><capability><inputs/><outputs/><languagesSupported/></capability></capabilities>
<operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed><outputsNewCASes>true</outputsNewCASes></operationalProperties>
</analysisEngineMetaData></analysisEngineDescription>
X
mkdir in out
RUN() { LD_LIBRARY_PATH="$repo/_build/prefix/lib:$w" timeout 60 "$repo/_build/prefix/bin/runAECpp" "$@" >log 2>&1; }
