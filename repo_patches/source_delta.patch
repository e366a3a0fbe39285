From d80d7ac08fb0dbc8e71b4502113ff149d8592619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 01/21] fix: read fractional seconds of nav clock times with
 any number of digits

'.50' was read as 0.05 s and three-digit fractions raised ValueError.
---
 shipgrav/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..6d354fc 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,9 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        whole, _, frac = post[0][4:].partition('.')  # sec, fraction of sec
+        msec[i] = int(frac[:6].ljust(6, '0'))  # fraction in microseconds
+        sec[i] = int(whole)  # sec
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From b16a38dbc2bdf92b1abf21cf8af9a807660b0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 02/21] fix: let read_nav handle 180-degree crossings with
 copy-on-write pandas

_clean_180cross assigned into Series.values, which is read-only in pandas 3,
and relied on that assignment to change the DataFrame.
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 6d354fc..61cfe5a 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -355,7 +355,7 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].values.copy()  # .values can be a read-only view
 
     if sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
@@ -371,7 +371,7 @@ def _clean_180cross(gps_nav):
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav = gps_nav.assign(lon=newlon)
 
     return gps_nav
 
-- 
2.43.0


From 6ee9b50016463a4e2bd458b57e42ddbcd7a76b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 03/21] fix: return -999 from read_nav for every ship when the
 talker is not in a file

Only the Ride and Sikuliaq readers did; the others raised ValueError from min().
---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 61cfe5a..76a45f1 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -108,8 +108,8 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                     'R/V %s not yet supported for nav read; must supply read function' % ship)
                 return -999
 
-        if type(timest) is int and timest == -999:
-            return timest  # eg looking for a talker that is not in a file
+        if (type(timest) is int and timest == -999) or len(timest) == 0:
+            return -999  # eg looking for a talker that is not in a file
 
         # posix, seconds, for interpolation
         sec_time = np.array([d.timestamp() for d in timest])
-- 
2.43.0


From 15e3a670422d7d4af07e8a8ed04dc487f60b6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 04/21] fix: do not drop the last line of the file in
 read_other_stuff

---
 shipgrav/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 76a45f1..d21d976 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -824,10 +824,12 @@ def read_other_stuff(yaml_file, data_file, tag):
     s.seek(0)
     # get line, bytes->string, strip \r\n from end
     ln = s.readline().decode('ascii').rstrip()
-    while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+    while s.tell() < s.size():  # when s.tell() == s.size(), ln is the last line of the file
         if tag in ln:
             lines.append(ln)
         ln = s.readline().decode('ascii').rstrip()  # next!
+    if tag in ln:
+        lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 2a0e424803c9180b44341b260e3bb284ca5ca0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 05/21] fix: do not truncate Langseth BGM counts when field
 widths change

read_fwf fixes the column positions from the first 100 lines, so later lines
with longer timestamps lost digits of their counts.
---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index d21d976..9875f17 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -510,7 +510,7 @@ def _bgmserial_Langseth(path):
     """
     def count(x): return (int(x.split(':')[-1]))
     def dtime(x): return (datetime.strptime(x,'%Y:%j:%H:%M:%S.%f').replace(tzinfo=timezone.utc))
-    dat = pd.read_fwf(path, names=['date_time', 'counts'], usecols=(1,2),
+    dat = pd.read_csv(path, sep=r'\s+', names=['date_time', 'counts'], usecols=(1,2),
                       converters={'counts': count,'date_time': dtime})
     return dat
 
-- 
2.43.0


From e3b4bf06c88b83089574ecd3d6ad21491d739ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 06/21] fix: use all the data after the last gap for
 cross-coupling coefficients

The section after the last time gap, and the last sample of each section
before a gap, were left out.
---
 shipgrav/grav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..068e96e 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -365,13 +365,13 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         - **model** (*statsmodels.OLS*)- linear regression model
     """
 
-    end_inds = np.array([len(faa_in),])  # just the one
+    end_inds = np.array([len(faa_in)-1,])  # just the one
     if times is not None:  # supplied a vector of timestamps to go with everything else
         # split data into segments of continuous even sample rate
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], end_inds)
 
     end_inds = np.append(-1, end_inds)  # add starting point
 
@@ -383,12 +383,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]+1:end_inds[i]+1]
+        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]+1]
+        ve = ve_in[end_inds[i-1]+1:end_inds[i]+1]
+        al = al_in[end_inds[i-1]+1:end_inds[i]+1]
+        ax = ax_in[end_inds[i-1]+1:end_inds[i]+1]
+        level = level_in[end_inds[i-1]+1:end_inds[i]+1]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From a9268b5d70a5fe073407a2c1bbde423f310e15e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 07/21] fix: do not overwrite the caller's accelerations in
 up_vecs

Also makes read-only input (e.g. DataFrame columns .values) work.
---
 shipgrav/grav.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 068e96e..ad8cfc3 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -501,7 +501,9 @@ def up_vecs(dt, g, cacc, lacc, on_off, cper, cdamp, lper, ldamp):
     :return: **up_vecs** (*3xN ndarray*) - cross, long, and up vectors for the platform
 
     """
-    # clean out any nans in the accelerations
+    # clean out any nans in the accelerations (in copies, not the caller's arrays)
+    cacc = np.copy(cacc)
+    lacc = np.copy(lacc)
     cacc[np.isnan(cacc)] = 0
     lacc[np.isnan(lacc)] = 0
 
-- 
2.43.0


From 5b95f43151efb994121ef022bda2801dc38882b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 08/21] fix: correct wavenumbers in grav1d_padded for profiles
 with an odd number of points

---
 shipgrav/grav.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index ad8cfc3..5e0066d 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -659,14 +659,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
-
-    k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
-    k2 = k**2
-    xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
-    xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    kwn1 = 2*np.pi*np.abs(np.fft.fftfreq(nxt, dx))  # calculate wavenumbers
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
-- 
2.43.0


From 907fdad5c3aaa5615a7b65c6bf91af71ebe51741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 09/21] fix: let grav2d_folding work on grids with odd
 dimensions when not folding

---
 shipgrav/grav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 5e0066d..23a0b39 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -761,11 +761,11 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
 
     # wavenumbers:
     yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
+    yj = np.append(yj1, yj1[nyt-mfy:0:-1])
     yyk = (yj-1)*(yj-1)*ky2
 
     xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
+    xi = np.append(xi1, xi1[nxt-mfx:0:-1])
     xxk = (xi-1)*(xi-1)*kx2
 
     kwn1 = np.zeros((nxt, nyt))
-- 
2.43.0


From abd3af29f61e081b54ffa9f2210383b4c20403bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 10/21] fix: correct wavenumbers in crustal_thickness_2D, which
 were shifted by one

---
 shipgrav/grav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 23a0b39..f64a18c 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1183,8 +1183,8 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     kcut1 = 2*np.pi/wlarge
     kcut2 = 2*np.pi/wsmall
     dkcut = kcut2 - kcut1
-    mfx = nx/2 + 1
-    mfy = ny/2 + 1
+    mfx = nx/2  # indices i, j start at 0
+    mfy = ny/2
 
     prod = 1./(nx*ny)  # dimension correction factor
 
@@ -1202,13 +1202,13 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
         yj = j
         if j > mfy:
             yj = mfy*2 - j
-        yyk = kint2**2 * (yj-1)**2
+        yyk = kint2**2 * yj**2
 
         for i in range(nx):
             xi = i
             if i > mfx:
                 xi = mfx*2 - i
-            xxk = kint1**2 * (xi-1)**2
+            xxk = kint1**2 * xi**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
 
-- 
2.43.0


From 23dec4d1bd36098bb967948e3ece422168297f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 11/21] fix: keep everything after the first = of a value in
 clean_ini_to_toml

---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..3da8377 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -146,7 +146,7 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
             val = val.split('#')[0]
@@ -165,7 +165,7 @@ def clean_ini_to_toml(ini_file):
             float(val)
         except:
             val = "\"" + val + "\""
-            ln = '= '.join((ln.split('=')[0], val))
+            ln = '= '.join((ln.split('=', 1)[0], val))
             if extra_comm != '':
                 ln = '   #'.join((ln, extra_comm))
         fo.write(ln)
-- 
2.43.0


From a97c911fd73a26bfd2a2a7e0f9b54e4c4aaa9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 12/21] fix: use UTC hours for tide times given in other time
 zones

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index f64a18c..9274391 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -31,6 +31,7 @@ def _convert_datetime_tidetime(timestamp):
     """
     origin_time = datetime(1899, 12, 31, 12, 0, 0, tzinfo=timezone.utc)
     dt = timestamp - origin_time
+    timestamp = timestamp.astimezone(timezone.utc)  # hours below are UTC
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
     julian_hour = (timestamp.hour + timestamp.minute /
-- 
2.43.0


From 9888de6f07e461edfc5148dc5862a42702b78e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 13/21] fix: return -999 from read_nav for Ride with a talker
 it has no time format for

read_nav failed with AttributeError: 'NoneType' object has no attribute
'timestamp', instead of returning -999 like the other readers do when there
is no parser for what was asked.
---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 9875f17..78becf2 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -303,6 +303,8 @@ def _navdate_Ride(allnav, talker):
             msec = int(float('.'+date[6])*1e6)
             timest[i] = datetime(year, mon, day, hour, mint,
                                  sec, msec, tzinfo=timezone.utc)
+        else:  # no known time format for this talker
+            return -999
     return timest
 
 
-- 
2.43.0


From df1f2c7f2e86916388eba50df33a5b41d372a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 14/21] fix: only rewrite TRUE and FALSE in clean_ini_to_toml
 where they are the whole value

---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 3da8377..29593f1 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -128,8 +128,8 @@ def clean_ini_to_toml(ini_file):
     text = re.sub('\t', '  ', text)
 
     # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
+    text = re.sub(r'(?m)^([^=\n]*= *)TRUE(?= *(#|$))', r'\1true', text)
+    text = re.sub(r'(?m)^([^=\n]*= *)FALSE(?= *(#|$))', r'\1false', text)
 
     text = re.sub('$', '', text)
 
-- 
2.43.0


From 32655c19ced62b75a1b15c2fe026d03b84308538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 15/21] fix: leave // and tabs inside quoted values alone in
 clean_ini_to_toml

---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 29593f1..7e77d7c 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -122,10 +122,10 @@ def clean_ini_to_toml(ini_file):
         text = file.read()  # just read the whole thing
 
     # fix comments (// to #)
-    text = re.sub('//', '#', text)
+    text = re.sub(r'("[^"\n]*")|//', lambda m: m.group(1) or '#', text)
 
     # clean out tabs
-    text = re.sub('\t', '  ', text)
+    text = re.sub(r'("[^"\n]*")|\t', lambda m: m.group(1) or '  ', text)
 
     # fix TRUE and FALSE
     text = re.sub(r'(?m)^([^=\n]*= *)TRUE(?= *(#|$))', r'\1true', text)
-- 
2.43.0


From 51734465f5266c506f4d74b3724f4d163d796bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 16/21] fix: write numbers in clean_ini_to_toml in a form toml
 can read

---
 shipgrav/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 7e77d7c..9802bfc 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -162,7 +162,9 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         try:
-            float(val)
+            if not re.fullmatch(r'[+-]?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', val):
+                # written in a way toml does not know (eg leading zeros, .5)
+                ln = '= '.join((ln.split('=', 1)[0], repr(float(val))))
         except:
             val = "\"" + val + "\""
             ln = '= '.join((ln.split('=', 1)[0], val))
-- 
2.43.0


From ec42edc5a71cd0a2e1e2f3df8d3ae3665e09c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 17/21] fix: escape backslashes and quotes in values quoted by
 clean_ini_to_toml

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 9802bfc..7755951 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -166,7 +166,7 @@ def clean_ini_to_toml(ini_file):
                 # written in a way toml does not know (eg leading zeros, .5)
                 ln = '= '.join((ln.split('=', 1)[0], repr(float(val))))
         except:
-            val = "\"" + val + "\""
+            val = "\"" + val.replace('\\', '\\\\').replace('"', '\\"') + "\""
             ln = '= '.join((ln.split('=', 1)[0], val))
             if extra_comm != '':
                 ln = '   #'.join((ln, extra_comm))
-- 
2.43.0


From d0cfdb6ceca40105bbc0bae9f124dbc7334a9aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 18/21] fix: handle indented and whitespace-only lines and $ in
 values in clean_ini_to_toml

---
 shipgrav/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 7755951..6fe7322 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -138,8 +138,9 @@ def clean_ini_to_toml(ini_file):
     fo = open(opath, 'w')
     lines = text.split('\n')
     for ln in lines:
+        ln = ln.strip()
         if ln.startswith('$'):
-            ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
+            ln = ln[1:]  # clean out $ for talkers
 
         if ln.startswith('[') or ln.startswith('#') or ln == '':
             fo.write(ln)
-- 
2.43.0


From c65a7ac98bf53080b92a281ca6d2d3ce43b8c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 19/21] fix: ISO stamps of Ride and Sikuliaq fixes keep their
 microsecond

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 78becf2..81741a5 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -300,7 +300,7 @@ def _navdate_Ride(allnav, talker):
             hour = int(date[3])
             mint = int(date[4])
             sec = int(date[5])
-            msec = int(float('.'+date[6])*1e6)
+            msec = int(date[6][:6].ljust(6, '0'))  # fraction in microseconds
             timest[i] = datetime(year, mon, day, hour, mint,
                                  sec, msec, tzinfo=timezone.utc)
         else:  # no known time format for this talker
-- 
2.43.0


From 3112f8a6ee3969774bbc1348fbad30922df88af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 20/21] fix: read_nav no longer allocates an unused array as
 long as the time span of a nav file

---
 shipgrav/io.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 81741a5..569a154 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -114,8 +114,6 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
         # posix, seconds, for interpolation
         sec_time = np.array([d.timestamp() for d in timest])
         _, idx = np.unique(sec_time, return_index=True)
-        samp_time = np.arange(min(sec_time), max(
-            sec_time), sampling)  # fenceposting?
 
         # interpolate to desired sample rate
         lon_out = np.interp(sec_time, sec_time[idx], lon[idx])
-- 
2.43.0


From 191d54d1e4f59e9874337bcfbd1dcb8fbc96b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 21/21] fix: empty Langseth laptop file turns the columns of
 all files into objects

---
 shipgrav/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 569a154..dff7576 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -650,7 +650,9 @@ def _dgs_laptop_Langseth(path):
         # Return empty frame with expected columns if nothing valid
         cols = ['rgrav','long_a','crss_a','status','ve','vcc','al','ax','lat','lon',
                 'year','month','day','hour','minute','second','date_time']
-        return pd.DataFrame(columns=cols)
+        dat = pd.DataFrame(columns=cols, dtype=float)  # not object, which would spread to other files
+        dat['date_time'] = pd.to_datetime(dat['date_time'], utc=True)
+        return dat
 
     dat = pd.DataFrame(np.array(cleaned).T[[1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24]].T,
             columns=['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc','al', 'ax', 
-- 
2.43.0

