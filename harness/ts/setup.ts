import { install } from "./dom";
install();
