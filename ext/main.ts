import { main } from './engine';
import { options } from './options';
import { highlighting } from './highlighting';
import { downloads, executables } from './downloads';
import { logging } from './logs';
import { reloading, workspaces } from './workspaces';

main([options, downloads, executables, workspaces, reloading, highlighting, logging]);
