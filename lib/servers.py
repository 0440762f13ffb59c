"""Processes that answer requests, one JSON document per line."""
import atexit
import json
import os
import select
import subprocess
import sys

from . import harness

TIMEOUT = 120


class Server(object):
    def __init__(self, name, hashseed, *args):
        self.hashseed = hashseed
        self.process = subprocess.Popen(
            harness.command('--serve', name, *args),
            env=harness.environment(hashseed),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        )
        atexit.register(self.stop)

    def stop(self):
        if self.process.poll() is None:
            self.process.kill()
            self.process.wait()

    def send(self, request):
        data = json.dumps(request) + '\n'
        self.process.stdin.write(data.encode())
        self.process.stdin.flush()

    def receive(self):
        ready, _, _ = select.select([self.process.stdout], [], [], TIMEOUT)
        if not ready:
            self.stop()
            raise harness.Violation(
                'no answer in %d s in a process with hash seed %s' % (
                    TIMEOUT, self.hashseed))
        line = self.process.stdout.readline()
        if not line:
            raise RuntimeError('server process ended')
        return json.loads(line.decode())


def serve(answer):
    for line in sys.stdin:
        result = answer(json.loads(line))
        sys.stdout.write(json.dumps(result) + '\n')
        sys.stdout.flush()
    return 0
