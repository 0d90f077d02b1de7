"""Regenerates known_findings.json from the lists below (run by hand)."""
import json
import subprocess

FIXED = [  # (property, start of the commit subject, what failed)
 ("C01", "honour max_n_steps", "a step limit given to the simulation properties was ignored"),
 ("C03", "BinaryStar.reset adopts", "reset with new simulation properties kept the old ones"),
 ("C03", "restoring a binary that", "restoring a binary never evolved with a hook raised AttributeError"),
 ("C04", "common envelope in contact", "contact common envelopes were only mapped for one order of the stars"),
 ("C05", "a binary failing while its history", "a binary failing with cleared vector properties stopped the whole run"),
 ("C06", "temporary files which were not", "batch files that could not be combined were deleted"),
 ("C06", "a failure while saving", "a failure to write the one-line table was swallowed and the binaries dropped"),
 ("C07", "the original RNG", "resetting the generator of a parallel process gave the stream of another"),
 ("C07", "get_binary_by_iter", "looking up the n-th draw returned a binary that was never drawn"),
 ("C08", "single stars keep", "single stars lost their own mass with the q=1 scheme"),
 ("C15", "period PDF of log-uniform", "period density of log-uniform separations was off by the separation"),
 ("C15", "mean mass covers", "mean mass of a population missed part of the mass ratio range"),
 ("C09", "a sample file without", "a sample file without rows hung the run"),
 ("C10", "a selection without any match", "a condition without any match raised an error"),
 ("C10", "boolean masks select", "boolean masks on the history were applied to each chunk from the start"),
 ("C10", "open-ended slices", "an open-ended slice lost the last systems"),
 ("C10", "an empty selection of systems", "an empty list of systems raised an error"),
 ("C11", "exported tables list the systems", "history and one-line rows of an export were in different order and so got other indices"),
 ("C11", "exported systems get their metallicity", "exported systems got their metallicity in absolute units"),
 ("C11", "exporting counts systems", "an export changed the counts of the source population object"),
 ("C12", "formation channels of populations with only", "a chunk with only single stars stopped the channel calculation"),
 ("C12", "history lengths follow", "history lengths were stored in another order than the systems"),
 ("C13", "model weights belong", "weights were assigned by position to other systems"),
 ("C14", "a star formation model does not change", "using a model changed the default model of later calculations"),
 ("C14", "cosmic weights cover all", "events after the first chunk of a system with several events lost their cosmic weight"),
 ("C14", "redshift bins for widths", "bin widths that do not divide the cosmic age raised an error"),
 ("C16", "formation times from a histogram", "formation times from a histogram had another length than the population"),
 ("C19", "detection probabilities use", "detectability used the mass of star 1 even if star 2 is heavier"),
 ("C19", "detectability leaves", "detectability changed the intrinsic weights it was given"),
 ("C19", "beaming factors of bursts", "zero efficiency with the Pescalli+15 beaming raised an error"),
 ("C20", "delayed explosions of stars", "a CO core of exactly 11 Msun raised an error in the delayed engine"),
 ("C20", "the documented mechanism direct_he_core", "the documented mechanism direct_he_core was rejected at the first collapse"),
 ("C20", "white dwarfs keep the radius", "white dwarfs lost their radius"),
 ("C20", "remnants are neutron stars", "the maximum neutron star mass was overridden by the default one"),
 ("C20", "a numeric PISN limit", "stars without a He core failed with a numeric PISN limit"),
 ("C21", "supernovae without kicks", "without kicks the orbit always followed the mass lost by star 1, and disrupted or merged systems became detached"),
 ("C22", "a double common envelope uses", "a double common envelope used the core radius of the donor for both stars"),
 ("C22", "mass loss of mergers", "mergers in a single common envelope lost mass computed from the wrong orbital energy"),
 ("C22", "no energy released", "a merger without released energy ejected the whole envelope"),
 ("C23", "orbital decay by gravitational waves", "the decay of the orbit by gravitational waves had a wrong eccentricity term"),
 ("C23", "saturated M15", "saturated M15 braking of the primary used another formula than for the secondary"),
 ("C23", "CARB magnetic braking of the primary", "CARB braking of the primary depended on the mass of the secondary"),
 ("C23", "units of the CARB", "CARB braking mixed units"),
 ("C23", "an unsupported magnetic braking", "an unsupported braking mode raised an unrelated error"),
 ("C23", "detached steps with dt end", "with dt the last entry was not the end of the evolution"),
 ("C23", "no duplicated history", "with dt history entries were duplicated"),
 ("C23", "wind velocities in wind accretion", "wind accretion along a history used wrong wind velocities"),
 ("C23", "detached steps record", "the number of history entries differed from the requested one"),
 ("C23", "Roche-lobe overflow is not stepped", "a Roche-lobe overflow shorter than a solver step was missed"),
 ("C24", "compact objects within contact", "compact objects already touching were not merged"),
 ("C24", "inspiral times of very", "very eccentric compact objects stopped at a wrong time"),
 ("C24", "inspirals end at their", "short inspirals raised ValueError; wide orbits had history rows to another time"),
 ("C25", "compact objects follow the grid", "with a He star matched in the H-rich grid the binary evolved backwards in time"),
 ("C25", "matching stars with only some", "stars with only some rotation properties raised an error"),
 ("C25", "mass bounds of matches", "matches to the other single-star grid used the mass bounds of the first"),
 ("C25", "the root matching fails", "root matching without a root returned a star off the tracks"),
 ("C25", "bounds of Powell", "Powell matching without bounds for SciPy >= 1.10 (version compared as a float)"),
 ("C26", 'double common envelopes and mass-transfer cases', "double common envelopes and mass transfer cases kept the other star's number when the stars were exchanged for a grid"),
 ("C26", 'MESA tracks ending exactly', 'a track ending exactly at the maximum time raised IndexError'),
 ("C26", 'nearest-neighbour MESA step without', 'without recording the history the nearest-neighbour step raised UnboundLocalError'),
 ("C26", 'Eddington limit in the recorded', 'recorded accretion rates were compared in log with a linear Eddington limit'),
 ("C26", 'nearest neighbour without a track', 'beyond the maximum time next to a run without a track the step raised an error'),
 ("C26", 'initial-final interpolation with stop_at_end', 'initial-final interpolation could not be combined with stop_at_end'),
 ("C26", 'states of a MESA track interrupted', "a track interrupted at the maximum time got the states of the track's end"),
 ("C26", 'radius of massive white dwarfs', 'white dwarfs above 1.1 Msun got the radius of a neutron star'),
 ("C26", 'minimum companion mass of a binary', 'binaries with exchanged masses were tested against the wrong minimum companion mass'),
 ("C26", 'redirect of CO-HeMS RLO', 'CO-HeMS RLO binaries outside both ranges failed instead of being redirected'),
 ("C26", 'mass range of flipped binaries', 'the CO-HeMS step tested a flipped binary against the ranges of the other star'),
 ("C26", 'boundaries of a HMS-HMS RLO', 'one failed run redirected all binaries away from the HMS-HMS RLO grid'),
 ("C26", 'accretion rate of a compact object which', 'an object changing its type on a track was limited by the Eddington rate of the old type'),
 ("C19", "effective precession of secondaries with negative tilt", "the effective precession parameter ignored secondaries with a negative tilt"),
 ("C27", "surface mixing of merging He stars", "surface abundances of merging He stars were mixed with the masses after the merger"),
 ("C27", "merger of an evolved and a main-sequence star", "mergers of an evolved and a main-sequence star lost the core luminosities"),
 ("C27", "a merger does not exchange the recorded histories", "if the companion took the place of the engulfing star, the recorded histories of the stars were exchanged"),
 ("C28", "an undetermined mass transfer does not hide", "cases after an undetermined mass transfer were missing in cumulative flags"),
 ("C28", "double common envelopes of past rows", "double common envelopes of past rows were decided with the current states"),
 ("C29", "stop before carbon depletion if only star 1", "stopping before carbon depletion raised an error if only star 1 has an age column"),
 ("C29", "downsampling of tracks with missing values", "one missing value removed all rows between the ends of a track"),
 ("C29", "downsampling of integer columns", "integer columns were rounded when rescaled, so rows were lost"),
 ("C30", "grids with initial RLO fix and runs without", "grids with the initial RLO fix could not contain runs without grid point file"),
 ("C30", "lazily loaded grids after updating", "lazily loaded grids were unusable after updating the final values"),
 ("C30", "replace a column of the final values of a lazily", "columns of lazily loaded grids could not be replaced"),
 ("C30", "comparison of grids with different tables", "comparing grids with different tables raised an error; missing values made equal grids differ"),
 ("C31", "joining grids with post-processed columns", "grids with a mass transfer history or compact object types could not be joined"),
 ("C17", "binaries from tables keep their", "binaries read from tables lost their velocity and neighbour distances, the index 0, values with _i or _history in the name and the derived period"),
 ("C17", "tables of binaries with histories of", "a failed binary with more rows for a star got rows without index, which made the whole population impossible to save; making its table changed the binary"),
 ("C17", "data types of one-line columns", "text columns with _i or _f in the name could not be put in a one-line table"),
 ("C18", "all hooks of an inifile", "hooks without all optional lines or with gaps in the numbers were dropped, user defined hooks were replaced by the builtin ones"),
 ("C18", "steps can be loaded again", "loading again kept the first metallicity and lost the options of the matcher; a metallicity of one step leaked to the following ones; steps which are not given made loading fail"),
 ("C32", "constraints of an interpolator do not depend", "asking for the constraints of few keys removed constraints of all other interpolators; values that were not requested shifted the columns of test_interpolator"),
 ("C32", "correction of convective regions for any", "the correction of a convective region failed for a thickness of a third of the radius and for lines parallel to a boundary"),
 ("C32", "scaling of interpolators without classes", "interpolators without classes returned scaled values and failed outside of the hull, 1NN and given scalings could not be trained, integer inputs were truncated"),
 ("C32", "class-wise input scaling uses", "the input scaling of a class was fitted to runs of other classes if there are runs with initial mass transfer"),
 ("C32", "interpolators can be trained again", "training again doubled the interpolators, base interpolators could not be loaded from a file"),
 ("C33", "check of a population run works from outside", "the rescue scripts were written to the current directory and all jobs were submitted from there, where they cannot run"),
 ("C33", "rescue of a run with only some metallicities", "a run with complete batches of one metallicity and incomplete ones of another could not be rescued (ValueError)"),
 ("C33", "check does not claim to resubmit", "a population with the wrong number of binaries: the check claimed that all merge jobs were submitted, without submitting any"),
 ("C33", "check of missing batches if there is a log", "a log of a merge made the check of missing batches fail"),
 ("C33", "killed jobs don't leave files", "a job killed while writing left a file which the check took for a finished batch or population; the merge dropped its binaries"),
 ("C32", "interpolators do not use the runs they report", "runs without binary history or with missing input values were used for the training, although reported as discarded"),
 ("C34", "mass unit of the remnant if the profile", "a star whose profile lacks a column collapsed to a black hole of 1e-33 Msun"),
 ("C34", "spin and disk if the whole profile", "if no cell is left outside of the central black hole, its spin was above 1 and its disk nan"),
 ("C34", "verbose ejecta if only", "NameError in the verbose mode if only the outermost cell is ejected"),
 ("C35", "stars of grid runs get their metallicity", "post-processed pulsational pair-instability remnants used a metallicity 70 times too low: runs set the absolute one where the supernova step expects solar units"),
 ("C35", "post processing uses the parameters", "post_process_grid(SN_MODELS=...) ignored the parameters of the passed models and used the default or predefined ones"),
 ("C35", "grids can be reloaded after", "writing back post-processed values with fewer supernova models raised a KeyError when the file was reloaded"),
]
KNOWN = [  # (property, key, what)
 ("C15", "LogUniform.pdf", "LogUniform.pdf is the density per unit log10 divided by x: it integrates to ln(10) (value pinned by test_distributions.py)"),
 ("C23", "eddington-limit-WD", "eddington_limit passes the accretor mass in g to CO_radius, so wind accretion on white dwarfs is limited to about 1e-16 Msun/yr (value pinned by test_bondi_hoyle)"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                         capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for p, sub, what in FIXED:
        h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + sub)]
        assert len(h) == 1, (p, sub, h)
        fixed.append("fixed: property=%s %s %s" % (p, h[0], what))
    known = [{"property": p, "key": k, "what": w} for p, k, w in KNOWN]
    json.dump({"known": known, "fixed": fixed},
              open("/verif/known_findings.json", "w"), indent=1)


main()
