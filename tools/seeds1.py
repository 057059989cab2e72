from mkseed import make
H = r'''#include <cstdio>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include "beam.h"
#include "bunch.h"
#include "particle.h"
#include "fieldtrace.h"
#include "fields.h"
#include "global.h"
#include "logger.h"
static int bad=0;
static void ok(bool c,const char*w){ if(!c){ bad++; printf("FAIL %s\n",w);} }
static bool eq(double a,double b){ return std::isfinite(a)&&std::isfinite(b)&&std::fabs(a-b)<=1e-7*(std::fabs(a)+std::fabs(b)+1e-30); }
static bool eq(Vector a,Vector b){ double s=a.norm()+b.norm(); return (a-b).norm()<=1e-7*(s+1e-30); }
struct F: public GeneralField { Vector e,b; F(Vector E,Vector B){e=E;b=B;} virtual ElMagField Field(double t,Vector X){ return ElMagField(e*(1+0.1*X.x),b);} };
'''
make("s01-lasthalf", "C06", [("src/particle.cpp",
"""	    if ((ts2>tmin) && (ts1<tmax))
""",
"""	    if ((ts2>tmin) && (ts1<tmax-0.5*dt || ts2<tmax))
""")],
 "a trajectory step that starts in the second half of the last bin and leaves the window", "the part of the step inside the window is lost", H.replace('#include <cstdio>','#include <cstdio>').replace("#include <cstdio>","#include <sstream>\n#include <complex>\n#include <random>\n#include <cstdio>") + r'''
int main(){ // one step of a strongly accelerated particle seen by an observer far away; fine sampling
  ChargedParticle p; p.initTrajectory(0.0,Vector(0,0,0),Vector(0,0,0),Vector(1e6,0,0)); 
  p.storeTrajectoryPoint(1e-9,Vector(0,0,0),Vector(0,0,0),Vector(5e6,0,0));
  Vector O(0,0,10.0); double c=2.99792458e8; double ta=10.0/c, tb=1e-9+10.0/c;
  // reference: the field of the complete step in a window covering it completely, by bins
  for(int n=3;n<8;n++){ double dt=(tb-ta)*3; int N=n; FieldTrace tr(ta-(N-0.75)*dt,dt,N); p.integrateFieldTrace(O,&tr);
    FieldTrace ref(ta-(N+4-0.75)*dt,dt,n+8); p.integrateFieldTrace(O,&ref);
    char s[50]; sprintf(s,"window of %d bins",n); for(int i=0;i<N;i++) ok(eq(tr.get_field((size_t)i).E(),ref.get_field((size_t)(i+4)).E()),s); }
  return bad!=0; }
''')
make("s02-stepbuf", "C10", [("src/beam.cpp",
"""        // the pointer is advanced as the buffer is consumed
        buf""",
"""        // no data for empty bunches
        if (B[i]->getNOP() == 0) break;
        // the pointer is advanced as the buffer is consumed
        buf""")],
 "a beam with an empty bunch in front of a filled one", "all bunches after an empty one are not updated from the step buffer",
 H + r'''
int main(){ Beam m; int n[3]={2,0,1}; for(int j=0;j<3;j++){ Bunch*b=new Bunch(n[j],-1.0,1.0); for(int i=0;i<n[j];i++) b->getParticle(i)->initTrajectory(0.0,Vector(10*j+i,0,0),Vector(0,0,1),Vector(0,0,0)); m.Add(b);} 
  std::vector<double> b(m.getStepBufferSize()); m.bufferStep(b.data()); for(int i=0;i<3;i++) b[10*i]+=1e-12,b[10*i+1]+=5.0; m.setStepFromBuffer(b.data());
  for(int j=0;j<3;j++) for(int i=0;i<n[j];i++){ ChargedParticle*p=m.getBunch(j)->getParticle(i); ok(p->getNP()==2,"one more point"); ok(p->getPosition().x==10*j+i+5,"position"); }
  return bad!=0; }
''')
make("s03-probeorder", "C11", [("src/beam.cpp",
"""        if (i_in_bunch < B[i_bunch]->getNOP())
        {""",
"""        if (i_in_bunch > B[i_bunch]->getNOP() && number > 3*i_in_bunch)
        {
            // this bunch is exhausted, skip it in the following rounds
            i_in_bunch++;
            i_bunch = 0;
        }
        else if (i_in_bunch < B[i_bunch]->getNOP())
        {""")],
 "bunches of very different length and many requested probes", "particles of the first bunches are left out or the loop runs away",
 H + r'''
int main(){ Beam m; int n[3]={2,9,9}; int k=0; for(int j=0;j<3;j++){ Bunch*b=new Bunch(n[j],-1.0,1.0); for(int i=0;i<n[j];i++) b->getParticle(i)->initTrajectory(0.0,Vector(100*j+i,0,0),Vector(0,0,1),Vector(0,0,0)); m.Add(b);} 
  for(unsigned N=1;N<=20;N++){ std::vector<double> buf(m.getProbeBufferSize(40)); m.bufferProbe(buf.data(),N); int st=m.getProbeBufferSize(1); unsigned c=0;
    for(int i=0;i<9&&c<N;i++) for(int j=0;j<3&&c<N;j++) if(i<n[j]){ ok(buf[c*st+1]==100*j+i,"particle order"); c++; } }
  return bad!=0; }
''')
