import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
H="cfg(pt_sim) re-exports in src/lib.rs, so that simulated samplers, cameras, shapes, materials and containers can name the traits they implement"
NOTEST="No existing test starts a thread, renders, writes an image or uses a sampler beyond one radical inverse; "
p("C01","Every requested sample is taken exactly once and makes the image",
 "When rendering returns normally, every position of the sample area (the image plus the margin its filter reaches) has had exactly the requested number of samples per pixel taken, none elsewhere, and none is taken after the return. The image written is the filter-weighted, gamma-corrected average of exactly those samples, each channel at its nearest level. This holds for every image size, filter radius, samples per pixel, number of threads from 1 to 255 and interleaving of the workers.",
 ["schedules","configurations","inputs"],"all interleavings of the workers (preemption at any access), stalls of any of them, image sizes, radii, sample counts, thread counts",
 NOTEST+"the block iterator is tested alone, in one thread, for three sizes.",
 ["src/integrator.rs","src/film.rs","src/filter.rs"],
 [("workers draw blocks from one shared iterator","src/integrator.rs Integrator::render"),("blocks tile the sample area","src/film.rs FilmTileIter::next, Film::sample_bbox"),("samples are splatted through the filter table and merged under a lock","src/film.rs FilmTile::add_sample, Film::merge_film_tile"),("joins before writing","src/integrator.rs Integrator::render")],
 [("block iterator","next block to hand out","src/integrator.rs film_tile_iter"),("film pixels","weighted sums and weights","src/film.rs Film.pixels")],
 ["camera ray generation (one event per sample)","output.ppm"],H)
p("C02","The picture is the same for every number of threads and every schedule",
 "For a given scene, and a sampler whose values depend only on pixel, sample and dimension, the set of camera samples taken and the picture written are the same whatever the number of threads and however they are interleaved. Only the rounding of a sum may move a level by one.",
 ["schedules","configurations","inputs"],"all interleavings and stalls of 2 to 6 workers over seeded scenes of all shapes, materials, textures, lights and both containers",
 NOTEST+"a data race or hidden shared state in a scene component shows only under particular schedules.",
 ["src/integrator.rs","src/film.rs","src/scene.rs","src/container_kdtree.rs","src/container_simple.rs","src/sampler_halton.rs","src/reflection.rs","src/light.rs"],
 [("scene shared read-only through Arc","src/integrator.rs"),("each worker has its own sampler clone, camera clone and block","src/integrator.rs"),("path tracing state is local to the sample","src/integrator.rs IntegratorLocal::li")],
 None,["camera samples taken","output.ppm of a one-worker rendering against output.ppm of the run"],H)
p("C03","Concurrent merges into a film lose nothing and duplicate nothing",
 "When several threads merge blocks of samples, overlapping or not, inside or over the edge of the image, into one film while others may be writing it out, then after all merges have returned the film holds exactly the sum of all their samples. Each sample counts once, at every pixel of the image that its filter reaches within the block's reach and nowhere else.",
 ["schedules","histories"],"all interleavings of 2 to 6 merging clients and up to 2 writing clients over random blocks, sizes and radii",
 NOTEST+"lost updates need two merges preempted inside each other.",
 ["src/film.rs"],
 [("merge under the film's lock","src/film.rs Film::merge_film_tile"),("block reach and clipping","src/film.rs Film::get_film_tile, FilmTile::add_sample")],
 [("film pixels","weighted sums and weights","src/film.rs Film.pixels")],["image written after the last merge"],H)
p("C04","An image written during rendering is an atomic snapshot",
 "An image written out while other threads merge blocks into the film shows the film after some set of whole merges: every merge that finished before the writing began, none that began after it ended, and never part of one. Images written one after the other, by whichever thread, never lose a merge an earlier one showed. This holds however slow, stalling or fragmented the output stream is.",
 ["schedules","histories","fault_sequences"],"all interleavings of merging and writing clients, with output streams that accept a byte at a time, interrupt or stall",
 NOTEST+"a torn image needs a merge in the middle of a write.",
 ["src/film.rs"],
 [("the writer holds the film's lock for the whole image","src/film.rs Film::write_image_ppm"),("merge under the same lock","src/film.rs Film::merge_film_tile")],
 [("film pixels","weighted sums and weights","src/film.rs Film.pixels")],["bytes accepted by the stream of each write"],H)
p("C05","A normal return leaves exactly the finished image in the output file",
 "When rendering returns normally, the output file is one complete valid plain PPM image of the film's size holding the finished picture, and not a byte more. This holds whatever the file held before: nothing, a longer or shorter file, the picture of an earlier rendering of another size, or what a crash in the middle of an earlier write left behind.",
 ["crash_points","histories","fault_sequences"],"all earlier contents, crashes at every file operation of an earlier rendering with any part of the unsynced data lost, interrupted and short writes",
 NOTEST+"nothing opens the output file in a test.",
 ["src/integrator.rs","src/film.rs"],
 [("output file created and truncated before writing","src/integrator.rs Integrator::render"),("header and pixels written in full","src/film.rs Film::write_image_ppm")],
 [("output.ppm","the picture","working directory")],["output.ppm after each return and after each simulated crash"],None)
p("C06","I/O errors on the image are never swallowed",
 "If opening, writing or flushing the image meets an error that does not go away (no space, I/O error, nothing accepted), then rendering, or writing the image to a stream, does not return normally. Interrupted and short writes are retried and leave no trace in the image. A normal return thus always means that the complete image was handed over, including what was still buffered.",
 ["fault_sequences","inputs"],"an error, full disk, zero-length, short or interrupted write at any file or stream operation, including the last flush",
 NOTEST+"no test writes an image, let alone to a failing device.",
 ["src/integrator.rs","src/film.rs"],
 [("write_all and flush results are unwrapped","src/film.rs Film::write_image_ppm"),("open result is unwrapped","src/integrator.rs Integrator::render")],
 None,["how rendering ends","output.ppm or the bytes the stream accepted"],H)
p("C07","A failing worker gives neither a false success nor a damaged file",
 "If a worker panics, a thread cannot be started or memory runs out during a rendering, the call ends - it neither hangs nor deadlocks - and it returns normally only if the complete correct image was written all the same. When the failure came before there was a complete picture to write, an output file that existed before is left exactly as it was.",
 ["fault_sequences","schedules"],"panics at any call of any sampler, camera, shape, material or container on any worker, failure of any thread start or allocation, under all interleavings",
 NOTEST+"the fault must hit one worker while the others are at particular points.",
 ["src/integrator.rs","src/film.rs"],
 [("join results are unwrapped before the file is opened","src/integrator.rs Integrator::render"),("locks are poisoned by a panic, not left held","src/integrator.rs, src/film.rs")],
 None,["how rendering ends","output.ppm before and after"],H)
p("C08","An invalid radiance costs only its own sample",
 "A sample whose radiance has a NaN, an infinite or a negative component is left out of the image; every other sample counts just as if it had not occurred, and exactly the requested samples are still taken. Rendering goes on to a normal return, also when the warning about it cannot be written because standard error is closed, full or broken.",
 ["inputs","fault_sequences","schedules"],"any part of the samples (up to all) invalid in any component and manner, standard error failing from any point on, all interleavings",
 NOTEST+"nothing in the tests computes a radiance.",
 ["src/integrator.rs"],
 [("validity test before the sample is added","src/integrator.rs IntegratorLocal::render"),("warning to standard error with its result ignored","src/integrator.rs IntegratorLocal::render")],
 None,["output.ppm","camera samples taken","how rendering ends"],H)
p("C09","Halton values depend only on pixel, sample and dimension, and spread evenly",
 "Every value the quasi-random sampler hands out lies in [0, 1) and is a function of pixel, sample number and dimension alone: not of what was asked before, of which clone or thread asks, or of whether dimensions are drawn singly or in pairs; and it announces exactly the requested number of samples for every pixel. Of the first 2^k (3^k) samples of a pixel exactly one falls in each of 2^k equal columns (3^k equal rows). Two pixels of the image in one 128 by 128 block never use the same point of the sequence. All this holds for hundreds of thousands of samples per pixel and for the depth of the longest paths.",
 ["histories","schedules","inputs"],"any history of pixels, samples and draws, clones taken at any point and used from any thread, film sizes to 300, up to 200000 samples per pixel, dimensions to 900",
 "One test evaluates radical inverses of small numbers; cached per-pixel state, clones and large sample numbers are not reached.",
 ["src/sampler_halton.rs","src/sampler.rs"],
 [("index of a sample from pixel offset and stride, cached per pixel","src/sampler_halton.rs HaltonSampler::get_index_for_sample"),("radical inverses in 64 bits, clamped below one","src/sampler_halton.rs radical_inverse")],
 [("offset cache","offset of the current pixel's first sample","src/sampler_halton.rs pixel_for_offset, offset_for_current_pixel")],["values drawn, in renderings and by direct clients"],H)
p("C10","A light path is bounded whatever the random numbers",
 "Following one camera sample through any scene ends after at most 65 scatterings, for every sequence of sampler values in [0, 1), including runs of zeros or of the largest value below one that never let Russian roulette end a path. Rendering therefore always ends, and it does not panic.",
 ["inputs","fault_sequences"],"adversarial sampler values (all zero, all largest, all one half, mixtures, hashes), closed rooms of reflecting and transmitting materials with reflectance up to one, both containers, with and without lights",
 NOTEST+"the limit matters only for values and scenes that ordinary rendering does not meet.",
 ["src/integrator.rs","src/reflection.rs"],
 [("limit on bounces","src/integrator.rs IntegratorLocal::li"),("Russian roulette","src/integrator.rs IntegratorLocal::li")],
 None,["ray queries, material evaluations and draws of each path","how rendering ends"],H)
p("C11","The random sampler's streams are never repeated across workers or blocks",
 "A rendering with the random sampler never uses a stretch of random numbers twice: the copies that workers render with, and those taken from block to block, each draw from a stream of their own, on every schedule. Every value lies in [0, 1), and interrupted reads of the system's entropy make no difference.",
 ["schedules","histories","fault_sequences"],"all interleavings of workers cloning and drawing, interrupted entropy reads",
 "No test uses this sampler; repeated streams give a plausible picture and show only in the values.",
 ["src/sampler_random.rs","src/integrator.rs"],
 [("a clone seeds a generator of its own","src/sampler_random.rs Clone for RandomSampler"),("the sampler is cloned per worker and per block","src/integrator.rs Integrator::render")],
 None,["values drawn, in renderings and by direct clients"],H)
p("C12","Workers run in parallel; a stalled one holds back only its own block",
 "With n threads requested and at least n blocks of 16 by 16 positions to do, n samples - and never more - can be in flight at the same time. A worker that stalls, for however long and wherever in its sampler, camera or scene, holds back no more than the block it is working on: the other workers meanwhile finish everything else.",
 ["schedules","fault_sequences"],"stalls of all but one worker at any call, all interleavings, 2 to 10 threads",
 NOTEST+"serialisation is invisible in results and shows only when a worker does not move.",
 ["src/integrator.rs","src/film.rs"],
 [("the iterator's lock is held only to fetch a block","src/integrator.rs Integrator::render"),("blocks are rendered into private tiles","src/integrator.rs IntegratorLocal::render"),("block size","src/film.rs TILE_SIZE")],
 None,["camera samples taken and in flight when nothing else can run"],H)
p("C13","Rendering again with the same renderer gives the same image",
 "Rendering any number of times with one renderer object, with the same or another number of threads, takes all requested samples afresh each time, and each time leaves the same correct image in the output file.",
 ["histories","schedules","configurations"],"2 to 4 successive renderings with equal or different thread counts, all interleavings and stalls",
 NOTEST+"state left over from one rendering (sampler, film, iterator) shows only in the next.",
 ["src/integrator.rs","src/film.rs"],
 [("block iterator and sampler clones are made anew for each rendering","src/integrator.rs Integrator::render"),("each rendering fills a blank film of its own","src/film.rs Film::blank")],
 [("film pixels","weighted sums of one rendering","src/film.rs Film.pixels")],["output.ppm and camera samples of each rendering"],H)
p("C14","Rendering leaves no thread, open file or memory behind",
 "After a rendering has ended, normally or by a panic, and its remaining workers have come to rest, none of the threads it started is left and no file is open. Rendering again and again, with one renderer object or a new one each time, does not make the process hold more memory.",
 ["histories","fault_sequences","schedules"],"3 to 5 renderings in one process, with worker panics, failed thread starts, failing, interrupted and short writes at any point, all interleavings",
 NOTEST+"leaks show only over several renderings and on failure paths.",
 ["src/integrator.rs","src/film.rs","src/scene.rs"],
 [("workers are joined","src/integrator.rs Integrator::render"),("ownership through Arc without cycles; file closed on drop","src/integrator.rs")],
 None,["live threads, open files and heap bytes when nothing else can run"],H)
p("C15","A shared scene answers every question as if it were the only one",
 "A scene, with its shapes, materials, textures and lights, and a camera can be used by any number of threads at once. Every answer they give (nearest hit, occlusion, scattering function, light sample, camera ray) depends only on the question: not on what was asked before nor on what is being asked at the same time, whatever the interleaving. A query that stalls holds back no other.",
 ["schedules","histories","inputs"],"2 to 6 threads asking 1 to 10 different questions of one scene in any order and interleaving, some of them stalled inside a shape, material or container",
 NOTEST+"no test asks one scene from two threads.",
 ["src/scene.rs","src/container_kdtree.rs","src/container_simple.rs","src/shape_sphere.rs","src/shape_triangle.rs","src/light.rs","src/texture.rs","src/camera.rs","src/interaction.rs","src/reflection.rs"],
 [("queries take &self and keep no state","src/scene.rs Scene, src/shape.rs Shape, src/material.rs Material, src/light.rs Light"),("traversal state is local to the call","src/container_kdtree.rs KdTree::intersect")],
 None,["answers of a shared scene bit for bit against those of a scene asked once","clients that are through when nothing else can run"],H)
p("C16","Renderings in one process do not mix",
 "Several renderings, each with a renderer of its own, may run at the same time or one after the other in one process; the renderers may have been made by one thread or by several. Each takes exactly its own samples, and when no other writes the output file meanwhile it leaves its own correct image there. One that stalls or fails neither holds back nor spoils the others.",
 ["schedules","configurations","fault_sequences"],"2 or 3 simultaneous renderings of equal or different size, filter, samples and threads, their renderers made by one thread or each by its own, all interleavings, panics and stalls in one of them",
 NOTEST+"state shared by accident between renderers (a static, a thread-local, a cache) shows only when two of them overlap.",
 ["src/integrator.rs","src/film.rs"],
 [("each rendering has its own iterator, workers and film","src/integrator.rs Integrator::render"),("no global state","src/film.rs, src/sampler_halton.rs")],
 None,["camera samples of each rendering","output.ppm when each rendering returns"],H)
p("C17","A rendering's memory does not grow with the samples it takes",
 "The memory a rendering holds at any moment is bounded by its image, its scene and its threads. It does not grow with the number of samples per pixel, the lengths of their paths, the rendering's progress or the order in which workers run.",
 ["configurations","schedules"],"image sizes, filters, 1 to 8 threads, samples per pixel up to dozens of times those of the reference rendering, all interleavings and stalls",
 NOTEST+"buffers that grow with the samples leave every image correct and exhaust memory only in long renderings.",
 ["src/integrator.rs","src/film.rs","src/sampler_halton.rs"],
 [("a block's samples are summed per pixel as they come","src/film.rs FilmTile::add_sample"),("a worker holds one block at a time","src/integrator.rs IntegratorLocal::render")],
 None,["peak of live heap bytes during a rendering"],H)
p("C18","Every invalid sample is reported once, by a line of its own that names its pixel",
 "For every sample whose radiance is negative, infinite or not a number there is exactly one line on standard error that names the pixel it belongs to, and there is none for other samples. Lines of different workers never run into one another, whatever the interleaving, even when standard error takes a write only in part or is interrupted.",
 ["schedules","inputs","fault_sequences"],"any number of invalid samples of any kind at any place, 1 to 8 threads, all interleavings, short and interrupted writes to standard error",
 NOTEST+"no test renders an invalid sample, and mixed lines need particular interleavings of writes.",
 ["src/integrator.rs"],
 [("warning of invalid radiance","src/integrator.rs IntegratorLocal::render")],
 None,["bytes written to standard error"],H)
p("C19","Rendering leaves every other file alone",
 "A rendering changes no file but output.ppm. Every other file is byte for byte what it was, whether the rendering returns, fails or is killed at any moment, and once renderings have returned normally there is no file that was not there before, except output.ppm itself.",
 ["crash_points","fault_sequences","schedules","histories"],"renderings alone, one after the other and at one time, with I/O errors, panics, failed thread starts and allocations, a crash at any file operation, other files of similar names beside the picture",
 NOTEST+"what is left behind after a failure or by a race between workers shows only under that failure or race.",
 ["src/integrator.rs","src/film.rs"],
 [("output.ppm is the only file opened","src/integrator.rs Integrator::render")],
 [("directory","files and their contents","working directory")],["all files after each run and after each simulated crash"],H)
p("C20","A renderer is as good as new after a rendering that failed",
 "When a rendering fails, for instance because a worker panics, a thread cannot be started or the image cannot be written, and the caller catches the panic, the renderer can render again. Every later rendering in which nothing goes wrong returns normally, takes all requested samples afresh, and leaves the same correct image as a renderer that never failed: nothing of the failed rendering shows in it, not even of workers that are still at it.",
 ["histories","fault_sequences","schedules"],"2 to 5 renderings on one renderer, all but the last disturbed by panics at any call of any plug-in, failed thread starts or errors at any file operation, with the remains of a failed rendering at rest or still running, all interleavings",
 NOTEST+"what a failure leaves in the renderer depends on how far the workers had come.",
 ["src/integrator.rs","src/film.rs"],
 [("each rendering fills a blank film of its own","src/integrator.rs Integrator::render, src/film.rs Film::blank"),("block iterator, sampler clones and locks are made anew for each rendering","src/integrator.rs Integrator::render")],
 [("film pixels","weighted sums of one rendering","src/film.rs Film.pixels")],["how each rendering ends","camera samples of each","output.ppm after each"],H)
p("C21","One renderer can render for several threads at once",
 "Threads that share a renderer can call it at the same time. Each such rendering takes all requested samples, and leaves the correct image in output.ppm when no other one writes the file meanwhile. One that stalls or fails neither holds back nor spoils the others.",
 ["schedules","fault_sequences","histories"],"2 to 9 renderings by as many or fewer threads on one shared renderer, of different worker counts, panics and stalls in any of them, slow files, all interleavings",
 NOTEST+"whether renderings disturb one another depends on how they interleave.",
 ["src/integrator.rs","src/film.rs"],
 [("render takes the renderer by shared reference; block iterator, film and sampler clones are those of one call","src/integrator.rs Integrator::render")],
 [("renderer","scene, camera, sampler prototype, empty film","src/integrator.rs Integrator")],["camera samples of each","output.ppm after each"],H)
PURE="The existing tests evaluate one or two fixed inputs."
def q(id,title,st,files,mech,qt): p(id,title,st,["inputs"],qt,PURE,files,mech)
q("P01","The kd-tree answers every ray exactly as an exhaustive search does","For every set of shapes and every ray, the accelerated container reports the same nearest hit, and the same yes-or-no occlusion answer, as testing every shape.",["src/container_kdtree.rs","src/container_simple.rs"],[("surface-area heuristic build and front-to-back traversal","src/container_kdtree.rs")],"all shape sets and rays")
q("P02","Occlusion tests agree with intersections","For every shape and ray the occlusion test says yes exactly when the intersection test finds a hit, the hit lies on the shape and within the ray's extent.",["src/shape_sphere.rs","src/shape_triangle.rs"],[("intersect and intersect_p","src/shape_sphere.rs, src/shape_triangle.rs")],"all rays, spheres and triangles")
q("P03","Scattering functions, densities and sampled directions agree","For every material and directions the density reported with a sampled direction equals the one reported for that direction, the same holds for the scattering function, and both are non-negative.",["src/reflection.rs","src/bxdf_lambertian_reflection.rs","src/bxdf_microfacet_reflection.rs","src/bxdf_microfacet_transmission.rs","src/bxdf_specular_reflection.rs","src/bxdf_specular_transmission.rs","src/microfacet.rs"],[("BSDF::f, pdf, sample_f","src/reflection.rs")],"all materials, directions and random numbers")
q("P04","Fresnel reflectances lie between zero and one","For every angle and every pair of media the reflected fraction lies in [0, 1], and is one under total internal reflection.",["src/fresnel.rs"],[("dielectric and conductor formulas","src/fresnel.rs")],"all angles and indices")
q("P05","Transforms are undone by their inverses","Applying a transform and then its inverse to a point, vector, normal, ray or box gives it back within rounding.",["src/transform.rs","src/matrix.rs"],[("Transform::inverse","src/transform.rs")],"all invertible transforms")
q("P06","A ray spawned on a surface does not hit that surface again","Rays and visibility tests started at an intersection do not report the surface they start on.",["src/interaction.rs","src/light.rs"],[("origin offset","src/interaction.rs spawn_ray")],"all intersections and directions")
q("P07","Light sampling and its densities agree","For every light and point the density reported with a sampled direction equals the one reported for that direction.",["src/light.rs","src/shape.rs","src/shape_triangle.rs"],[("sample_li and pdf_li","src/light.rs")],"all lights, points and random numbers")
q("P08","The camera maps the film to the screen window exactly","Film positions map affinely onto the screen window, corners to corners, and the centre looks along the viewing direction.",["src/camera.rs"],[("raster-to-camera transform","src/camera.rs")],"all windows, resolutions and positions")
q("P09","Textures evaluate as defined at every point","Checkerboards alternate exactly at their cell borders on both sides of the origin, and constant textures are constant.",["src/texture.rs"],[("mappings and evaluate","src/texture.rs")],"all points and mappings")
q("P10","The expected radiance of a path is that of the light transport equation","Averaged over all random numbers, the radiance computed for a camera ray is the radiance arriving along it: direct light counted once by both of its estimators together, the throughput divided by the density, Russian roulette compensated.",["src/integrator.rs","src/sampling.rs"],[("path tracing with multiple importance sampling","src/integrator.rs IntegratorLocal::li, estimate_direct")],"all scenes and rays")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
REASON="a pure single-threaded function of its inputs: no thread, clock, I/O, randomness or crash can influence it, so there is no schedule or fault for a simulation to vary and the search would be plain input fuzzing under another name"
import subprocess
hook=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^sim hook']).decode().split()
notes={
"C01":"Film model in double precision and per-position sample counts over the recorded history.",
"C02":"Compared with a one-worker rendering in a fresh process of its own.",
"C03":"Final image compared with the model of all merges.",
"C04":"Linearizability of merges and writes: each image must equal the model of an admissible set of whole merges and the sets must form a chain.",
"C05":"Strict PPM reader plus model, over stale files, sequences of renderings and second lives after simulated crashes.",
"C06":"Faults at every kind of file and stream operation; normal return requires the exact image.",
"C07":"Panics, failed thread starts and failed allocations injected by call index; deadlock and livelock are detected by the scheduler.",
"C08":"Invalid radiances at hash-chosen points, standard error failing from a chosen write on.",
"C09":"Every value compared with a fresh sampler that did nothing before; spread checked on the visited pixels; points of neighbouring and far pixels of a block compared.",
"C10":"Adversarial samplers in closed bright rooms; scatterings, ray queries and end of every path counted.",
"C11":"All value pairs of a run compared for repetition.",
"C12":"Stalls last until nothing else can run; at that point the samples taken and in flight are counted.",
"C13":"Sample counts and image of each of several renderings compared with the model.",
"C14":"Threads, files and heap audited when the process is quiet after each rendering.",
"C15":"Each question is also asked alone of a fresh scene in a fresh process; answers of concurrent clients on one shared scene must be the same bits.",
"C17":"Peak heap of a rendering compared with that of a one-worker rendering with one sample per pixel.",
"C18":"Bytes written to standard error split into lines and compared with the invalid samples the camera and scene really produced.",
"C19":"The simulated file system is compared before and after, on every way a run can end.",
"C20":"Renderings of one renderer whose failures are caught; those left alone are judged by sample counts and the film model.",
"C21":"As C16, with one renderer shared by the calling threads; whether it can be shared is asked of the compiler.",
"C16":"Per-rendering sample counts and images against the film model, renderings overlapping by construction.",
}
GEN=" Seeded search: explores a sample of schedules and fault plans, no proof. Trusts the simulator's model of threads, futexes, files and allocation, interleaves at sequentially consistent accesses of pt's own code, and assumes std and rand behave between their own kernel calls."
M={"version":1,"setup_cmd":"./check.sh build",
"hooks":{"guard":"pt_sim","enable":"check.sh builds /repo through sim/rustc-wrap.sh (RUSTC_WRAPPER), which adds --cfg pt_sim and ThreadSanitizer instrumentation calls to crate pt","source_commits":hook},
"checks":[{"property":x["id"],"quick_cmd":"./check.sh %s quick"%x["id"],"thorough_cmd":"./check.sh %s thorough"%x["id"],"evidence_file":"evidence/%s.json"%x["id"],
 "technique":"deterministic simulation with fault injection (seeded search over schedules and faults)","level":"exploration","level_note":notes[x["id"]]+GEN} for x in P if x["id"][0]=="C"],
"not_applicable":[{"property":x["id"],"reason":REASON if x["id"]!="P10" else "an integral of a pure function over its random numbers: statistics over a very large number of evaluations of one thread decide it, and no schedule, fault, clock or crash has any influence on it"} for x in P if x["id"][0]=="P"],
"notes":"./check.sh replay <file> re-executes a recorded violation; ./check.sh selftest checks that every run is a function of its seed."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P),"ok")
