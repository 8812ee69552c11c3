#!/bin/bash
# dev/q.sh FILE.ts [src-root]: bundle a scratch script against the sources and run it
S=${2:-/repo}
cat > /tmp/q.tsconfig.json <<J
{"compilerOptions":{"baseUrl":"$S","paths":{"@optique/core/*":["packages/core/src/*"],"@optique/core":["packages/core/src/index"],"@optique/env":["packages/env/src/index"],"@optique/config":["packages/config/src/index"],"@optique/derived-defaults":["packages/derived-defaults/src/index"],"@optique/discover":["packages/discover/src/index"],"@optique/prompt":["packages/prompt/src/index"],"@optique/inquirer":["packages/inquirer/src/index"],"@optique/clack":["packages/clack/src/index"],"@optique/standard-schema":["packages/standard-schema/src/index"],"@optique/zod":["packages/zod/src/index"],"@optique/valibot":["packages/valibot/src/index"],"@optique/man":["packages/man/src/index"],"@optique/run":["packages/run/src/index"],"@optique/run/*":["packages/run/src/*"],"@optique/logtape":["packages/logtape/src/index"],"@optique/git":["packages/git/src/index"],"@optique/temporal":["packages/temporal/src/index"]}}}
J
/opt/veriftools/node/node_modules/.bin/esbuild "$1" --bundle --platform=node --format=esm --outfile=/tmp/q.out.mjs --tsconfig=/tmp/q.tsconfig.json --log-level=error --external:@logtape/logtape --external:isomorphic-git --external:@inquirer/prompts --external:@clack/prompts --external:zod --external:valibot && node /tmp/q.out.mjs
