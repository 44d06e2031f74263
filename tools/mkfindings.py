"""Writes /verif/known-findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C13","fit prescribed breaks also when no other","prescribed breaks with max_no_breaks 0 stopped the fit"),
 ("C13","fit the right line when the first profiles","when the first profiles of a series have no data the whole fitted line was moved by the gap"),
 ("C03","interpolate bathymetry without","with scipy >= 1.14 every mapping and fit stopped: interp2d no longer exists"),
 ("C14","interpolate salinity on theta levels","find_10thetas stopped with numpy >= 1.25: a one-element array was used as an index"),
 ("C01","extend an existing mapped file","a second mapping run over a grown source stopped or put new columns before old ones"),
 ("C01","sort the mapped columns","the mapped matrices were sorted twice, so columns and profile numbers disagreed for an unordered source"),
 ("C01","save the mapped file when no historical","no file was written (IndexError) when no historical point had been selected"),
 ("C01","save and plot the mapped file","the mapped file was written to a place where it was not read when prefix or directory are configured differently"),
 ("C15","extend an existing calseries","new profiles made set_calseries stop or got the wrong series number"),
 ("C15","accept a calseries file without","an older file without use_percent_gt stopped the run"),
 ("C15","remove a range bound given","a bound of several values given as a row was kept and stopped the fit"),
 ("C16","read calibration files with the postfix","calibration files were read with a fixed postfix"),
 ("C17","read hours and minutes","dates read from files as floats lost their hours and minutes"),
 ("C05","read historical files with a single","a file with one cast or one level was skipped"),
 ("C04","leave out only the Argo casts","casts of floats whose number contains the name of this float were left out too"),
 ("C05","keep the casts that follow","after a first cast without levels later casts were lost"),
 ("C03","map a profile whose only pressure","a profile with a pressure only at its first level was not mapped"),
 ("C03","shift the float longitude","a float east of Greenwich was not shifted when all casts lie west of it"),
 ("C03","give the selected casts their own","casts were mapped with the ocean depth of other casts"),
 ("C01","leave a profile unmapped","a profile without any close cast stopped the run"),
 ("C09","interpolate climatology that has","flat, one-level or no climatology around a float level stopped the interpolation"),
 ("C06","near the poles","boxes next to the poles were returned twice"),
 ("C14","find no theta levels","find_10thetas stopped when no level was usable"),
 ("C19","leave the arrays given","find_10thetas and wrap_longitude changed their arguments"),
 ("C20","read a historical file again","a replaced historical file was still served from the cache"),
 ("C13","estimate the error of a fit","the error of a fit with found breaks stopped with an exception"),
 ("C13","report the coefficients","coefficients and breaks of the last trial instead of those of the fit found were returned"),
 ("C13","order observations","the covariance was not ordered like the observations"),
 ("C13","fit without a maximum","fit_cond stopped without max_no_breaks"),
 ("C13","compare fits when one","a singular candidate was preferred or stopped the comparison"),
 ("C13","return missing values for each","a series without data returned results of the wrong shape"),
 ("C13","search break points in addition","prescribed breaks were lost when more breaks were searched"),
 ("C16","calibrate each profile with","with an unordered source profiles were calibrated with the mapping and series number of other profiles"),
 ("C16","write missing calibration values","the fit stopped when nothing was mapped"),
 ("C16","depth of a float on both sides","depths of float positions either side of Greenwich or the date line were not found"),
 ("C16","use the maximum number of breaks","every series used the first series' maximum number of breaks"),
 ("C16","calibrate with prescribed","prescribed breaks stopped the fit"),
 ("C16","too few sets of breaks","settings with fewer sets of breaks than series stopped the fit instead of giving missing values"),
 ("C18","accept repeated pressures","a cast with repeated pressures stopped the frontal constraint"),
 ("C18","use the deepest level","the deepest level of a profile was never used to find the side of the front"),
 ("C08","select historical casts when","find_besthist stopped for a maximum of one, two or four casts"),
 ("C08","give find_besthist's correlation","the vorticities of float and cast were given in the places of each other's arguments"),
 ("C06","next to a box boundary","positions next to a box boundary got the same box twice"),
 ("C11","make the covariance of two profiles","the covariance of two profiles depended on their order when vorticity is used"),
 ("C12","return no fit for every","some singular systems returned arbitrary coefficients"),
 ("C01","map new profiles of a source with fewer levels","new profiles could not be mapped when the source has fewer levels than the mapped file"),
 ("C04","fit a source with fewer levels","the fit stopped (IndexError) when the source has fewer levels than the mapped file"),
 ("C16","fit with series numbers given as a column","the fit stopped when the series numbers are stored as a column"),
 ("C13","profile numbers stored in a small integer type","profile numbers stored as uint8 whose sum exceeds 255 stopped the fit or gave a wrong one"),
 ("C05","casts whose levels are stored as integers","files whose pressures are all whole numbers (stored as integers) gave no data"),
 ("C14","profiles that are stored as integers","whole-number pressures (stored as integers) stopped the choice of theta levels"),
 ("C16","find the ocean depth of a float whose longitudes","the depth under a float with whole-number longitudes east of 180 was taken elsewhere"),
 ("C09","interpolate climatology whose levels are stored","historical levels given as unsigned integers wrapped around when they were differenced"),
 ("C21","leave out single levels, not whole rows","theta or pressure ranges blanked whole rows of all profiles in the salinity variance figure, or stopped it"),
 ("C21","draw both panels of the salinity curve","the second panel of the salinity curve was drawn into the first open figure, and that figure was saved instead"),
 ("C21","draw the salinity profile plot in a figure","the salinity profile figure was drawn on top of the first open figure"),
 ("C21","draw the trajectory plot in a figure","the trajectory was drawn into whatever figure was current, such as the last one of the previous float"),
 ("C21","plot floats whose longitudes are stored","longitudes stored as unsigned integers wrapped to 65000 or stopped the plots"),
 ("C21","plot floats whose levels are stored","pressures stored as integers stopped the salinity variance figure"),
 ("C13","search several break points beyond","two and four breaks were never moved from their evenly spread start (rounding noise in the start stalled the search)"),
 ("C13","give the error of the slope as rms","time_deriv_err, documented as the rms error of the change per profile, was a variance in mixed units"),
 ("C13","start the search for breaks at the given initial","the option initial_breaks of fit_cond stopped for every form of argument (IndexError, ValueError)"),
 ("C13","keep break points in order when equal","equal breaks were set apart into disorder, so that the error estimate of three or four breaks could stop (ValueError)"),
]
OPEN = json.load(open(V + "/tools/open-findings.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
used = set()
for p, key, what in FIXED:
    m = [l for l in log if key in l]
    assert len(m) == 1, (key, m)
    used.add(m[0])
    h, s = m[0].split(" ", 1)
    out.append({"property": p, "status": "fixed", "commit": h, "what": what, "line": "fixed: property=%s %s %s" % (p, h, what)})
for l in log:
    if " fix:" in l and l not in used: print("not listed:", l)
json.dump({"findings": OPEN + out}, open(V + "/known-findings.json", "w"), indent=1)
print(len(OPEN), "open", len(out), "fixed")
