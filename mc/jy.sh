#!/bin/bash
# Jython with the harness's stand-ins first on the path; privcount itself comes from /repo
J=/usr/share/java
H=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=$H/stubs:$H/lib:$H/props:/opt/jysite:${MC_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONHOME
exec /usr/bin/java ${MC_JAVA_OPTS:--Xmx2500m -Xss16m} -XX:+UseSerialGC -Djava.net.preferIPv4Stack=true -Djava.security.egd=file:/dev/./urandom \
    -cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar \
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \
    org.python.util.jython -B "$@"
